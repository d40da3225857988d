//! Hash-consed bit-vector terms with a rewriting constructor.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FUno,
    SIToFP,
    UIToFP,
    FPToSISat,
    FPToUISat,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub struct TM {
    pub nodes: Vec<Node>,
    kz: Vec<u128>,
    ko: Vec<u128>,
    map: HashMap<Node, T, std::hash::BuildHasherDefault<FxLike>>,
    sup: Vec<Option<Rc<Vec<T>>>>,
    pub nvars: u32,
}

#[derive(Default, Clone)]
pub struct FxLike(u64);
impl std::hash::Hasher for FxLike {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (sx, sy) = (sext(x, w), sext(y, w));
            if sy == 0 {
                if sx < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx.wrapping_div(sy) as u128
            }
        }
        Op::SRem => {
            let (sx, sy) = (sext(x, w), sext(y, w));
            if sy == 0 {
                x
            } else {
                sx.wrapping_rem(sy) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext(x, w);
            if y >= w as u128 {
                (s >> 127) as u128
            } else {
                (s >> y) as u128
            }
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let r = match op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    _ => a / b,
                };
                (if r.is_nan() { 0x7fc00000 } else { r.to_bits() }) as u128
            } else {
                let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                let r = match op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    _ => a / b,
                };
                (if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() }) as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
            let (a, b) = if w == 32 {
                (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
            } else {
                (f64::from_bits(x as u64), f64::from_bits(y as u64))
            };
            (match op {
                Op::FEq => a == b,
                Op::FLt => a < b,
                Op::FLe => a <= b,
                _ => a.is_nan() || b.is_nan(),
            }) as u128
        }
        _ => unreachable!("fold {:?}", op),
    };
    if is_cmp(op) {
        r
    } else {
        r & m
    }
}
pub fn is_cmp(op: Op) -> bool {
    matches!(
        op,
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno
    )
}
/// unary conversions: (op, from width, to width, value)
pub fn fold_conv(op: Op, wf: u16, wt: u16, x: u128) -> u128 {
    match op {
        Op::SIToFP => {
            let s = sext(x, wf);
            if wt == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        Op::UIToFP => {
            if wt == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FPToSISat | Op::FPToUISat => {
            let f = if wf == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            if op == Op::FPToUISat {
                let v = f as u128;
                v.min(mask(wt))
            } else {
                let v = f as i128;
                let hi = (mask(wt) >> 1) as i128;
                (v.clamp(-hi - 1, hi) as u128) & mask(wt)
            }
        }
        Op::FPExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Op::FPTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        _ => unreachable!(),
    }
}

impl TM {
    pub fn new() -> TM {
        let mut t = TM {
            nodes: vec![],
            kz: vec![],
            ko: vec![],
            map: HashMap::default(),
            sup: vec![],
            nvars: 0,
        };
        // term 0 = constant 0 of width 1, term 1 = constant 1 of width 1
        t.konst(0, 1);
        t.konst(1, 1);
        t
    }
    pub const FALSE: T = 0;
    pub const TRUE: T = 1;

    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    pub fn cst(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn kz(&self, t: T) -> u128 {
        self.kz[t as usize]
    }
    pub fn ko(&self, t: T) -> u128 {
        self.ko[t as usize]
    }
    pub fn umax(&self, t: T) -> u128 {
        !self.kz[t as usize] & mask(self.w(t))
    }
    pub fn umin(&self, t: T) -> u128 {
        self.ko[t as usize]
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let id = self.nodes.len() as T;
        let (z, o) = self.known(&n);
        self.nodes.push(n);
        self.kz.push(z);
        self.ko.push(o);
        self.sup.push(None);
        self.map.insert(n, id);
        id
    }
    fn known(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let (z, o): (u128, u128) = match n.op {
            Op::Const => (!n.k & m, n.k),
            Op::And => (self.kz(n.a) | self.kz(n.b), self.ko(n.a) & self.ko(n.b)),
            Op::Or => (self.kz(n.a) & self.kz(n.b), self.ko(n.a) | self.ko(n.b)),
            Op::Xor => (
                (self.kz(n.a) & self.kz(n.b)) | (self.ko(n.a) & self.ko(n.b)),
                (self.kz(n.a) & self.ko(n.b)) | (self.ko(n.a) & self.kz(n.b)),
            ),
            Op::Concat => {
                let wl = self.w(n.b);
                (self.kz(n.a) << wl | self.kz(n.b), self.ko(n.a) << wl | self.ko(n.b))
            }
            Op::Extract => (self.kz(n.a) >> n.k & m, self.ko(n.a) >> n.k & m),
            Op::ZExt => ((m & !mask(self.w(n.a))) | self.kz(n.a), self.ko(n.a)),
            Op::SExt => {
                let wa = self.w(n.a);
                let hi = m & !mask(wa);
                let sb = 1u128 << (wa - 1);
                let mut z = self.kz(n.a);
                let mut o = self.ko(n.a);
                if z & sb != 0 {
                    z |= hi
                }
                if o & sb != 0 {
                    o |= hi
                }
                (z, o)
            }
            Op::Ite => (self.kz(n.b) & self.kz(n.c), self.ko(n.b) & self.ko(n.c)),
            Op::Add => {
                let mut z = 0;
                if let Some(s) = self.umax(n.a).checked_add(self.umax(n.b)) {
                    if s <= m {
                        z = hi_zero(s, m);
                    }
                }
                let tz = (!self.kz(n.a)).trailing_zeros().min((!self.kz(n.b)).trailing_zeros());
                if tz > 0 {
                    z |= if tz >= 128 { !0 } else { (1u128 << tz) - 1 };
                }
                (z, 0)
            }
            Op::Mul => {
                let mut z = 0;
                if let Some(s) = self.umax(n.a).checked_mul(self.umax(n.b)) {
                    if s <= m {
                        z = hi_zero(s, m);
                    }
                }
                let tz = ((!self.kz(n.a)).trailing_zeros() + (!self.kz(n.b)).trailing_zeros()).min(127);
                z |= (1u128 << tz) - 1;
                (z, 0)
            }
            Op::UDiv => {
                let mut z = 0;
                if self.umin(n.b) > 0 {
                    z = hi_zero(self.umax(n.a) / self.umin(n.b), m);
                }
                (z, 0)
            }
            Op::URem => {
                let mut z = 0;
                if self.umin(n.b) > 0 {
                    z = hi_zero((self.umax(n.b) - 1).min(self.umax(n.a)), m);
                }
                (z, 0)
            }
            _ => (0, 0),
        };
        (z & m, o & m)
    }

    pub fn konst(&mut self, v: u128, w: u16) -> T {
        debug_assert!(w > 0 && w <= 128);
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, w: u16) -> T {
        let k = self.nvars as u128;
        self.nvars += 1;
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k })
    }
    /// The variable with index `k` (created once, reused by sibling paths).
    pub fn var_at(&mut self, k: u32, w: u16) -> T {
        if k >= self.nvars {
            self.nvars = k + 1;
        }
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: k as u128 })
    }
    fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    fn mk2(&mut self, op: Op, w: u16, a: T, b: T) -> T {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Op::Eq, a, b)
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        debug_assert!(w == self.w(b), "{:?} {} {}", op, w, self.w(b));
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.konst(fold(op, w, x, y), rw);
        }
        let m = mask(w);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let ca = self.cst(a);
        let cb = self.cst(b);
        // push through an ite whose arms are both constant
        if let Some(k) = cb {
            let n = self.n(a);
            if n.op == Op::Ite && self.cst(n.b).is_some() && self.cst(n.c).is_some() {
                let x = fold(op, w, self.cst(n.b).unwrap(), k);
                let y = fold(op, w, self.cst(n.c).unwrap(), k);
                let (x, y) = (self.konst(x, rw), self.konst(y, rw));
                return self.ite(n.a, x, y);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.cst(n.b) {
                            let c = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                }
                // (k - x) + x
                for (p, q) in [(a, b), (b, a)] {
                    let n = self.n(p);
                    if n.op == Op::Sub && n.b == q {
                        return n.a;
                    }
                }
                if self.kz(a) | self.kz(b) == m {
                    return self.bin(Op::Or, a, b);
                }
                self.mk2(op, w, a, b)
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let c = self.konst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                let n = self.n(a);
                if n.op == Op::Add && n.a == b {
                    return n.b;
                }
                if n.op == Op::Add && n.b == b {
                    return n.a;
                }
                self.mk2(op, w, a, b)
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                self.mk2(op, w, a, b)
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k > 0 && self.umax(a) < k {
                        return self.konst(0, w);
                    }
                }
                self.mk2(op, w, a, b)
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(0, w);
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if k > 0 && self.umax(a) < k {
                        return a;
                    }
                }
                self.mk2(op, w, a, b)
            }
            Op::SDiv | Op::SRem => self.mk2(op, w, a, b),
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if k & !self.kz(a) == !self.kz(a) & m {
                        return a; // mask keeps every possibly-set bit
                    }
                    if w > 1 {
                        return self.mask_runs(a, k);
                    }
                }
                if self.kz(a) | self.kz(b) == m {
                    return self.konst(0, w);
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return Self::FALSE;
                    }
                    // absorption: a & (a | x) = a
                }
                self.mk2(op, w, a, b)
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return Self::TRUE;
                }
                if w > 1 && self.kz(a) | self.kz(b) == m {
                    return self.disjoint_or(a, b);
                }
                self.mk2(op, w, a, b)
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(k2) = self.cst(n.b) {
                            let c = self.konst(k ^ k2, w);
                            return self.bin(Op::Xor, n.a, c);
                        }
                    }
                    if w == 1 {
                        // not(ult(a,b)) = ule(b,a)
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
                self.mk2(op, w, a, b)
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        if op == Op::AShr {
                            let s = self.extract(a, w - 1, 1);
                            return self.sext(s, w);
                        }
                        return self.konst(0, w);
                    }
                    let k = k as u16;
                    return match op {
                        Op::Shl => {
                            let lo = self.extract(a, 0, w - k);
                            let z = self.konst(0, k);
                            self.concat(lo, z)
                        }
                        Op::LShr => {
                            let hi = self.extract(a, k, w - k);
                            self.zext(hi, w)
                        }
                        _ => {
                            let hi = self.extract(a, k, w - k);
                            self.sext(hi, w)
                        }
                    };
                }
                self.mk2(op, w, a, b)
            }
            Op::Eq => {
                if a == b {
                    return Self::TRUE;
                }
                if (self.kz(a) & self.ko(b)) | (self.ko(a) & self.kz(b)) != 0 {
                    return Self::FALSE;
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let wa = self.w(n.a);
                            if k > mask(wa) {
                                return Self::FALSE;
                            }
                            let c = self.konst(k, wa);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::SExt => {
                            let wa = self.w(n.a);
                            if (sext(k & mask(wa), wa) as u128) & m != k {
                                return Self::FALSE;
                            }
                            let c = self.konst(k, wa);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Concat => {
                            let wl = self.w(n.b);
                            let wh = self.w(n.a);
                            let (h, l) = (self.konst(k >> wl, wh), self.konst(k, wl));
                            let x = self.bin(Op::Eq, n.b, l);
                            if x == Self::FALSE {
                                return x;
                            }
                            let y = self.bin(Op::Eq, n.a, h);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cst(n.b) {
                                let c = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cst(n.b) {
                                let c = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        Op::Ite => {
                            if self.cst(n.b).is_some() || self.cst(n.c).is_some() {
                                let x = self.bin(Op::Eq, n.b, b);
                                let y = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat || nb.op == Op::Concat {
                        let c = if na.op == Op::Concat { na } else { nb };
                        let wl = self.w(c.b);
                        let wh = self.w(c.a);
                        let (al, bl) = (self.extract(a, 0, wl), self.extract(b, 0, wl));
                        let x = self.bin(Op::Eq, al, bl);
                        if x == Self::FALSE {
                            return x;
                        }
                        let (ah, bh) = (self.extract(a, wl, wh), self.extract(b, wl, wh));
                        let y = self.bin(Op::Eq, ah, bh);
                        return self.bin(Op::And, x, y);
                    }
                }
                self.mk2(op, 1, a, b)
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return if op == Op::Ule { Self::TRUE } else { Self::FALSE };
                }
                let (amin, amax, bmin, bmax) = (self.umin(a), self.umax(a), self.umin(b), self.umax(b));
                if op == Op::Ult {
                    if amax < bmin {
                        return Self::TRUE;
                    }
                    if amin >= bmax {
                        return Self::FALSE;
                    }
                } else {
                    if amax <= bmin {
                        return Self::TRUE;
                    }
                    if amin > bmax {
                        return Self::FALSE;
                    }
                }
                // normalise to Ult/Ule with smaller widths
                let (na, nb) = (self.n(a), self.n(b));
                if w > 1 {
                    if na.op == Op::ZExt {
                        let wa = self.w(na.a);
                        if let Some(k) = cb {
                            let c = self.konst(k, wa);
                            return self.bin(op, na.a, c);
                        }
                        if nb.op == Op::ZExt && self.w(nb.a) == wa {
                            return self.bin(op, na.a, nb.a);
                        }
                    }
                    if nb.op == Op::ZExt {
                        let wb = self.w(nb.a);
                        if let Some(k) = ca {
                            let c = self.konst(k, wb);
                            return self.bin(op, c, nb.a);
                        }
                    }
                    if op == Op::Ult && cb == Some(1) {
                        let z = self.konst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    if op == Op::Ule && cb == Some(0) {
                        return self.bin(Op::Eq, a, b);
                    }
                    if op == Op::Ult && ca == Some(0) {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                }
                self.mk2(op, 1, a, b)
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Sle { Self::TRUE } else { Self::FALSE };
                }
                let sb = 1u128 << (w - 1);
                if self.kz(a) & sb != 0 && self.kz(b) & sb != 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == Op::Slt && ca == Some(m) {
                    // -1 < b  <=> b >= 0
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == Op::Sle && cb == Some(m) {
                    return self.extract(a, w - 1, 1);
                }
                self.mk2(op, 1, a, b)
            }
            _ => self.mk2(op, rw, a, b),
        }
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        (na.op == Op::Xor && na.a == b && self.cst(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.a == a && self.cst(nb.b) == Some(1))
            || (na.op == Op::Ult && nb.op == Op::Ule && na.a == nb.b && na.b == nb.a)
            || (na.op == Op::Ule && nb.op == Op::Ult && na.a == nb.b && na.b == nb.a)
    }
    /// a & k as a concatenation of extracted runs and zeros
    fn mask_runs(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let mut pos = 0u16;
        let mut acc: Option<T> = None;
        while pos < w {
            let bit = k >> pos & 1;
            let mut e = pos;
            while e < w && (k >> e & 1) == bit {
                e += 1;
            }
            let piece = if bit == 1 { self.extract(a, pos, e - pos) } else { self.konst(0, e - pos) };
            acc = Some(match acc {
                None => piece,
                Some(l) => self.concat(piece, l),
            });
            pos = e;
        }
        acc.unwrap()
    }
    fn disjoint_or(&mut self, a: T, b: T) -> T {
        // bits where b may be set come from b, the others from a
        let w = self.w(a);
        let fromb = !self.kz(b) & mask(w);
        let mut pos = 0u16;
        let mut runs = vec![];
        while pos < w {
            let bit = fromb >> pos & 1;
            let mut e = pos;
            while e < w && (fromb >> e & 1) == bit {
                e += 1;
            }
            runs.push((pos, e, bit));
            pos = e;
        }
        if runs.len() > 8 {
            return self.mk2(Op::Or, w, a, b);
        }
        let mut acc: Option<T> = None;
        for (p, e, bit) in runs {
            let src = if bit == 1 { b } else { a };
            let piece = self.extract(src, p, e - p);
            acc = Some(match acc {
                None => piece,
                Some(l) => self.concat(piece, l),
            });
        }
        acc.unwrap()
    }

    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cst(hi), self.cst(lo)) {
            return self.konst(x << wl | y, w);
        }
        if self.cst(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        // zext on the left: concat(zext(x), lo) = zext(concat(x, lo))
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // x above extract(x) tail
        if nl.op == Op::Extract && nl.a == hi && false {
            return self.mk2(Op::Concat, w, hi, lo);
        }
        // right-associate: concat(concat(a,b),lo) -> concat(a, concat(b,lo))
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nl.op == Op::Concat {
            // merge hi with the top piece of lo
            let nt = self.n(nl.a);
            if nh.op == Op::Extract && nt.op == Op::Extract && nh.a == nt.a && nh.k == nt.k + self.w(nl.a) as u128 {
                let wt = self.w(nl.a) + wh;
                let top = self.extract(nh.a, nt.k as u16, wt);
                return self.concat(top, nl.b);
            }
            if let (Some(x), Some(y)) = (self.cst(hi), self.cst(nl.a)) {
                let wt = self.w(nl.a);
                let top = self.konst(x << wt | y, wh + wt);
                return self.concat(top, nl.b);
            }
        }
        self.mk2(Op::Concat, w, hi, lo)
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa && w > 0, "extract {}+{} of {}", lo, w, wa);
        if w == wa {
            return a;
        }
        let m = mask(w);
        let (z, o) = (self.kz(a) >> lo & m, self.ko(a) >> lo & m);
        if z | o == m {
            return self.konst(o, w);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wx = self.w(n.a);
                if lo >= wx {
                    return self.konst(0, w);
                }
                if lo + w <= wx {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wx - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wx = self.w(n.a);
                if lo + w <= wx {
                    return self.extract(n.a, lo, w);
                }
                if lo < wx {
                    let x = self.extract(n.a, lo, wx - lo);
                    return self.sext(x, w);
                }
                let s = self.extract(n.a, wx - 1, 1);
                return self.sext(s, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        debug_assert!(w >= wa);
        if w == wa {
            return a;
        }
        if let Some(k) = self.cst(a) {
            return self.konst(k, w);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.cst(n.b).is_some() && self.cst(n.c).is_some() {
            let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        if let Some(k) = self.cst(a) {
            return self.konst(sext(k, wa) as u128, w);
        }
        if self.kz(a) >> (wa - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if wa == 1 {
            let (x, y) = (self.konst(!0, w), self.konst(0, w));
            return self.ite(a, x, y);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && self.cst(n.b).is_some() && self.cst(n.c).is_some() {
            let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == Self::TRUE || a == b {
            return a;
        }
        if c == Self::FALSE {
            return b;
        }
        let w = self.w(a);
        let n = self.n(c);
        if n.op == Op::Xor && self.cst(n.b) == Some(1) && n.w == 1 {
            return self.ite(n.a, b, a);
        }
        if w == 1 {
            if a == Self::TRUE && b == Self::FALSE {
                return c;
            }
            if a == Self::FALSE && b == Self::TRUE {
                return self.not(c);
            }
            if a == Self::TRUE {
                return self.bin(Op::Or, c, b);
            }
            if b == Self::FALSE {
                return self.bin(Op::And, c, a);
            }
            if a == Self::FALSE {
                let nc = self.not(c);
                return self.bin(Op::And, nc, b);
            }
            if b == Self::TRUE {
                let nc = self.not(c);
                return self.bin(Op::Or, nc, a);
            }
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let cd = self.bin(Op::Or, c, nb.a);
            return self.ite(cd, a, nb.c);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn conv(&mut self, op: Op, a: T, w: u16) -> T {
        if let Some(k) = self.cst(a) {
            let wf = self.w(a);
            return self.konst(fold_conv(op, wf, w, k), w);
        }
        self.intern(Node { op, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn kids(&self, t: T) -> ([T; 3], usize) {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Extract | Op::ZExt | Op::SExt | Op::SIToFP | Op::UIToFP | Op::FPToSISat | Op::FPToUISat | Op::FPExt | Op::FPTrunc => {
                ([n.a, 0, 0], 1)
            }
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    /// sorted list of the variable terms `t` depends on
    pub fn support(&mut self, t: T) -> Rc<Vec<T>> {
        if let Some(s) = &self.sup[t as usize] {
            return s.clone();
        }
        let (k, c) = self.kids(t);
        let r = if self.n(t).op == Op::Var {
            Rc::new(vec![t])
        } else if c == 0 {
            Rc::new(vec![])
        } else {
            let mut acc: Option<Rc<Vec<T>>> = None;
            for i in 0..c {
                let s = self.support(k[i]);
                acc = Some(match acc {
                    None => s,
                    Some(a) => {
                        if s.is_empty() || Rc::ptr_eq(&a, &s) {
                            a
                        } else if a.is_empty() {
                            s
                        } else {
                            merge(&a, &s)
                        }
                    }
                });
            }
            acc.unwrap()
        };
        self.sup[t as usize] = Some(r.clone());
        r
    }
    pub fn eval(&self, t: T, m: &Model) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(t),
            _ => {}
        }
        if let Some(&v) = m.cache.borrow().get(&t) {
            return v;
        }
        let r = match n.op {
            Op::Concat => self.eval(n.a, m) << self.w(n.b) | self.eval(n.b, m),
            Op::Extract => self.eval(n.a, m) >> n.k & mask(n.w),
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => (sext(self.eval(n.a, m), self.w(n.a)) as u128) & mask(n.w),
            Op::Ite => {
                if self.eval(n.a, m) == 1 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                }
            }
            Op::SIToFP | Op::UIToFP | Op::FPToSISat | Op::FPToUISat | Op::FPExt | Op::FPTrunc => {
                fold_conv(n.op, self.w(n.a), n.w, self.eval(n.a, m))
            }
            _ => {
                let x = self.eval(n.a, m);
                let y = self.eval(n.b, m);
                fold(n.op, self.w(n.a), x, y)
            }
        };
        m.cache.borrow_mut().insert(t, r);
        r
    }
    /// the value of an operation for the values of its operands
    pub fn apply(&self, t: T, k: [u128; 3]) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Concat => k[0] << self.w(n.b) | k[1],
            Op::Extract => k[0] >> n.k & mask(n.w),
            Op::ZExt => k[0],
            Op::SExt => (sext(k[0], self.w(n.a)) as u128) & mask(n.w),
            Op::Ite => {
                if k[0] == 1 {
                    k[1]
                } else {
                    k[2]
                }
            }
            Op::SIToFP | Op::UIToFP | Op::FPToSISat | Op::FPToUISat | Op::FPExt | Op::FPTrunc => {
                fold_conv(n.op, self.w(n.a), n.w, k[0])
            }
            _ => fold(n.op, self.w(n.a), k[0], k[1]),
        }
    }
    #[allow(dead_code)]
    pub fn show(&self, t: T, d: usize) -> String {
        let n = &self.nodes[t as usize];
        if d == 0 {
            return format!("..{}", t);
        }
        match n.op {
            Op::Const => format!("0x{:x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d - 1), n.k, n.w),
            _ => {
                let (k, c) = self.kids(t);
                let mut s = format!("({:?}", n.op);
                for i in 0..c {
                    s += " ";
                    s += &self.show(k[i], d - 1);
                }
                if matches!(n.op, Op::ZExt | Op::SExt) {
                    s += &format!(":{}", n.w);
                }
                s + ")"
            }
        }
    }
}
fn hi_zero(max: u128, m: u128) -> u128 {
    let lz = max.leading_zeros();
    let used = 128 - lz;
    let keep = if used >= 128 { !0u128 } else { (1u128 << used) - 1 };
    m & !keep
}
fn merge(a: &[T], b: &[T]) -> Rc<Vec<T>> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            r.push(a[i]);
            i += 1
        } else if a[i] > b[j] {
            r.push(b[j]);
            j += 1
        } else {
            r.push(a[i]);
            i += 1;
            j += 1
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    Rc::new(r)
}

/// An assignment to variables (missing ones are 0), with an evaluation cache.
#[derive(Default)]
pub struct Model {
    pub vals: HashMap<T, u128, std::hash::BuildHasherDefault<FxLike>>,
    pub cache: std::cell::RefCell<HashMap<T, u128, std::hash::BuildHasherDefault<FxLike>>>,
}
impl Model {
    pub fn get(&self, v: T) -> u128 {
        self.vals.get(&v).copied().unwrap_or(0)
    }
}
