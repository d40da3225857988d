//! Parser for the subset of textual LLVM IR that rustc emits.
use crate::term::Op;
use crate::val::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, &'static Ty),
    Struct(Vec<Ty>, bool),
    Vec(u32, &'static Ty),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    /// width of a scalar
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr)
    }
}

#[derive(Debug, Clone)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Same,
    SIToFP,
    UIToFP,
    FPToSI,
    FPToUI,
    FPExt,
    FPTrunc,
}
#[derive(Debug, Clone)]
pub enum Callee {
    Fn(usize),
    Ext(usize),
    Ind(Opd),
}
#[derive(Debug, Clone)]
pub enum Inst {
    Bin(Op, u16, u32, u32, Opd, Opd), // op, w, lanes(0 scalar), dst, a, b
    FNeg(u16, u32, Opd),
    ICmp(Pred, u16, u32, u32, Opd, Opd),
    FCmp(String, u16, u32, Opd, Opd),
    Cast(CastK, u16, u16, u32, u32, Opd),
    BitCast(&'static Ty, &'static Ty, u32, Opd),
    Select(u32, u32, u16, Opd, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Load(u32, &'static Ty, Opd),
    Store(&'static Ty, Opd, Opd),
    Alloca(u32, u64),
    Call(Option<u32>, Callee, Vec<Opd>, Vec<u16>, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElt(u32, Opd, Opd),
    InsertElt(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>),
    AtomicRMW(String, u16, u32, Opd, Opd),
    CmpXchg(&'static Ty, u32, Opd, Opd, Opd),
    Move(u32, Opd),
    Nop,
    Bad(String),
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, Opd>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: String,
    pub idx: usize,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}

pub struct FnDecl {
    pub name: String,
    pub range: Option<(usize, usize)>, // header start .. end of body
    pub parsed: Option<&'static Func>,
}
pub struct GlobalDef {
    #[allow(dead_code)]
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub line: Option<(usize, usize)>, // position of the type in the text
    pub constant: bool,
}
pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, usize>,
    pub globals: Vec<GlobalDef>,
    pub glob_by_name: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub exts: Vec<String>,
    pub ext_by_name: HashMap<String, usize>,
}
pub const FN_BASE: u64 = 0x10000;

fn leak(t: Ty) -> &'static Ty {
    Box::leak(Box::new(t))
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())]).to_string()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'+' | b'$')) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        self.ws();
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn int(&mut self) -> Result<i128, String> {
        let w = self.word();
        parse_int(w).ok_or_else(|| format!("bad int {:?}", w))
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            String::from_utf8_lossy(&self.s[st..self.i - 1]).to_string()
        } else {
            self.word().to_string()
        }
    }
    fn skip_parens(&mut self) {
        if self.peek() == b'(' {
            let mut d = 0;
            loop {
                match self.s[self.i] {
                    b'(' => d += 1,
                    b')' => {
                        d -= 1;
                        if d == 0 {
                            self.i += 1;
                            return;
                        }
                    }
                    b'"' => {
                        self.i += 1;
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                    }
                    _ => {}
                }
                self.i += 1;
            }
        }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.int()?;
                if !self.eat_word("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n as u64, leak(t))
            }
            b'{' => {
                self.i += 1;
                let f = self.tylist(b'}')?;
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.tylist(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.int()?;
                    if !self.eat_word("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n as u32, leak(t))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "token" | "metadata" | "x86_amx" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("type {:?} before {:?}", w, self.rest())),
                }
            }
        };
        Ok(t)
    }
    fn tylist(&mut self, end: u8) -> Result<Vec<Ty>, String> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(b',')?;
        }
    }
    /// skip parameter/return attributes
    fn attrs(&mut self) -> Result<(), String> {
        loop {
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                self.name();
                if self.eat(b'=') {
                    self.name();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return Ok(());
            }
            let w = self.peek_word();
            match w {
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens()
                    } else {
                        self.word();
                    }
                }
                "byval" | "inalloca" | "preallocated" => return Err(format!("attribute {}", w)),
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg" | "returned"
                | "nofree" | "immarg" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind" | "dead_on_return" | "nest" | "swiftself" | "nodsp" => {
                    self.word();
                    self.skip_parens_if();
                }
                "sret" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "initializes" | "nofpclass" | "elementtype" | "memory" | "noext" | "nocallback" => {
                    self.word();
                    self.skip_parens_if();
                }
                _ => return Ok(()),
            }
        }
    }
    fn skip_parens_if(&mut self) {
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            self.skip_parens();
        }
    }
}
fn parse_int(w: &str) -> Option<i128> {
    if let Ok(v) = w.parse::<i128>() {
        return Some(v);
    }
    if let Ok(v) = w.parse::<u128>() {
        return Some(v as i128);
    }
    None
}
fn parse_float(w: &str, t: &Ty) -> Option<u128> {
    let (bits, is64): (u64, bool) = if let Some(h) = w.strip_prefix("0x") {
        (u64::from_str_radix(h, 16).ok()?, true)
    } else if let Some(h) = w.strip_prefix("f0x") {
        // raw bits of the type itself
        return u64::from_str_radix(h, 16).ok().map(|v| v as u128);
    } else {
        match w {
            "+inf" | "inf" => (f64::INFINITY.to_bits(), true),
            "-inf" => (f64::NEG_INFINITY.to_bits(), true),
            "-qnan" | "-nan" => ((-f64::NAN).to_bits() | 1 << 63, true),
            "+qnan" | "nan" | "+nan" => (f64::NAN.to_bits(), true),
            _ => (w.parse::<f64>().ok()?.to_bits(), true),
        }
    };
    let _ = is64;
    Some(if *t == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 })
}

pub fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Struct(f, _) => Val::A(std::rc::Rc::new(f.iter().map(zero_val).collect())),
        Ty::Arr(n, e) => Val::A(std::rc::Rc::new((0..*n).map(|_| zero_val(e)).collect())),
        Ty::Vec(n, e) => Val::A(std::rc::Rc::new((0..*n).map(|_| zero_val(e)).collect())),
        Ty::Void | Ty::Other => Val::C(0),
        _ => konst(0, t.bits()),
    }
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module {
            text,
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            aliases: HashMap::new(),
            exts: vec![],
            ext_by_name: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut pos = 0;
        let n = b.len();
        while pos < n {
            let e = memchr(b, b'\n', pos);
            let line = &text[pos..e];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let mut p = P { s: b, i: pos + at + 1 };
                let name = p.name();
                let range = if line.starts_with("define ") {
                    let end = text[e..].find("\n}").unwrap() + e + 1;
                    pos = end + 1;
                    Some((e - line.len(), end))
                } else {
                    pos = e + 1;
                    None
                };
                m.fn_by_name.insert(name.clone(), m.fns.len());
                m.fns.push(FnDecl { name, range, parsed: None });
                continue;
            }
            if line.starts_with('@') {
                let mut p = P { s: b, i: pos + 1 };
                let name = p.name();
                p.expect(b'=').unwrap();
                let mut constant = false;
                let mut external = false;
                loop {
                    let w = p.word();
                    match w {
                        "external" | "extern_weak" => external = true,
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => break,
                        "thread_local" => p.skip_parens_if(),
                        "" => panic!("global {:?}", line),
                        _ => {}
                    }
                }
                if line.contains(" alias ") {
                    let at = line.rfind('@').unwrap();
                    let mut q = P { s: b, i: pos + at + 1 };
                    let tgt = q.name();
                    m.aliases.insert(name, tgt);
                } else {
                    let ty = p.ty().unwrap_or(Ty::Int(64));
                    let _ = &ty;
                    let idx = m.globals.len();
                    let start = line.len() - (line.len() - (p.i - pos));
                    let _ = start;
                    // remember the position of the type
                    let tpos = {
                        // re-find: type starts right after the keyword
                        let kw = if constant { " constant " } else { " global " };
                        pos + line.find(kw).unwrap() + kw.len()
                    };
                    m.glob_by_name.insert(name.clone(), idx);
                    m.globals.push(GlobalDef {
                        name,
                        addr: (idx as u64 + 1) << 32,
                        size: ty.size(),
                        line: if external { None } else { Some((tpos, e)) },
                        constant,
                    });
                }
            }
            pos = e + 1;
        }
        m
    }
    pub fn global_init(&mut self, g: usize) -> Option<(Ty, Val)> {
        let (a, e) = self.globals[g].line?;
        let text = self.text;
        let mut p = P { s: &text.as_bytes()[..e], i: a };
        let ty = p.ty().unwrap();
        let v = match self.cval(&mut p, &ty) {
            Ok(v) => v,
            Err(_) => return None,
        };
        Some((ty, v))
    }
    pub fn addr_of(&mut self, name: &str) -> u64 {
        if let Some(&g) = self.glob_by_name.get(name) {
            return self.globals[g].addr;
        }
        if let Some(&f) = self.fn_by_name.get(name) {
            return FN_BASE + f as u64 * 16;
        }
        if let Some(t) = self.aliases.get(name).cloned() {
            return self.addr_of(&t);
        }
        panic!("no symbol {}", name)
    }
    pub fn fn_of_addr(&self, a: u64) -> Option<usize> {
        if a >= FN_BASE && a < FN_BASE + 16 * self.fns.len() as u64 && (a - FN_BASE) % 16 == 0 {
            Some(((a - FN_BASE) / 16) as usize)
        } else {
            None
        }
    }
    /// parse a constant of type ty
    fn cval(&mut self, p: &mut P, ty: &Ty) -> Result<Val, String> {
        let c = p.peek();
        if c == b'@' {
            p.i += 1;
            let n = p.name();
            return Ok(Val::C(self.addr_of(&n)));
        }
        if c == b'c' && p.i + 1 < p.s.len() && p.s[p.i + 1] == b'"' {
            p.i += 2;
            let mut out = vec![];
            while p.s[p.i] != b'"' {
                if p.s[p.i] == b'\\' {
                    if p.s[p.i + 1] == b'\\' {
                        out.push(b'\\');
                        p.i += 2;
                    } else {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        p.i += 3;
                    }
                } else {
                    out.push(p.s[p.i]);
                    p.i += 1;
                }
            }
            p.i += 1;
            return Ok(Val::A(std::rc::Rc::new(out.into_iter().map(|b| Val::C(b as u64)).collect())));
        }
        if c == b'[' || c == b'{' || c == b'<' {
            p.i += 1;
            let mut close = match c {
                b'[' => b']',
                b'{' => b'}',
                _ => b'>',
            };
            let packed = c == b'<' && p.peek() == b'{';
            if packed {
                p.i += 1;
                close = b'}';
            }
            let mut v = vec![];
            if !p.eat(close) {
                loop {
                    let t = p.ty()?;
                    v.push(self.cval(p, &t)?);
                    if p.eat(close) {
                        break;
                    }
                    p.expect(b',')?;
                }
            }
            if packed {
                p.expect(b'>')?;
            }
            return Ok(Val::A(std::rc::Rc::new(v)));
        }
        let w = p.word();
        match w {
            "zeroinitializer" | "undef" | "poison" | "null" | "none" => return Ok(zero_val(ty)),
            "true" => return Ok(Val::C(1)),
            "false" => return Ok(Val::C(0)),
            "splat" => {
                p.expect(b'(')?;
                let t = p.ty()?;
                let v = self.cval(p, &t)?;
                p.expect(b')')?;
                if let Ty::Vec(n, _) = ty {
                    return Ok(Val::A(std::rc::Rc::new(vec![v; *n as usize])));
                }
                return Err("splat".into());
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    p.word();
                    p.skip_parens_if();
                }
                p.expect(b'(')?;
                let sty = p.ty()?;
                p.expect(b',')?;
                let pt = p.ty()?;
                let base = self.cval(p, &pt)?;
                let mut off = 0i64;
                let mut cur = sty.clone();
                let mut first = true;
                while p.eat(b',') {
                    let t = p.ty()?;
                    let v = self.cval(p, &t)?.as_c().ok_or("gep idx")? as i64;
                    let v = sx(v as u64, t.bits());
                    if first {
                        off += v * sty.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off(v as usize) as i64;
                        cur = match &cur {
                            Ty::Struct(f, _) => f[v as usize].clone(),
                            Ty::Arr(_, t) => (*t).clone(),
                            Ty::Vec(_, t) => (*t).clone(),
                            _ => return Err("gep".into()),
                        };
                    }
                }
                p.expect(b')')?;
                return Ok(Val::C((base.as_c().ok_or("gep base")? as i64).wrapping_add(off) as u64));
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "sext" | "ptrtoaddr" => {
                p.expect(b'(')?;
                let t = p.ty()?;
                let v = self.cval(p, &t)?;
                p.eat_word("to");
                let t2 = p.ty()?;
                p.expect(b')')?;
                if t2.is_scalar() && t.is_scalar() {
                    let x = v.as_u128(t.bits()).ok_or("cast const")?;
                    return Ok(konst(x, t2.bits()));
                }
                return Ok(v);
            }
            "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact") {
                    p.word();
                }
                p.expect(b'(')?;
                let t = p.ty()?;
                let a = self.cval(p, &t)?;
                p.expect(b',')?;
                let t2 = p.ty()?;
                let b = self.cval(p, &t2)?;
                p.expect(b')')?;
                let op = binop(w).unwrap();
                let k = crate::term::fold(op, t.bits(), a.as_u128(t.bits()).unwrap(), b.as_u128(t.bits()).unwrap());
                return Ok(konst(k, t.bits()));
            }
            _ => {}
        }
        match ty {
            Ty::F32 | Ty::F64 if w.ends_with("nan") && p.eat(b'(') => {
                let h = p.word();
                p.expect(b')')?;
                let pay = u64::from_str_radix(h.trim_start_matches("0x"), 16).map_err(|_| "nan payload")?;
                let (exp, quiet, sign) = if *ty == Ty::F32 { (0x7f800000, 1 << 22, 1 << 31) } else { (0x7ff << 52, 1 << 51, 1 << 63) };
                let q = if w.contains("snan") { 0 } else { quiet };
                let s = if w.starts_with('-') { sign } else { 0 };
                Ok(Val::C(exp | q | s | pay))
            }
            Ty::F32 | Ty::F64 => parse_float(w, ty).map(|b| Val::C(b as u64)).ok_or(format!("float {:?}", w)),
            Ty::Int(n) => {
                let v = parse_int(w).ok_or_else(|| format!("const {:?} {:?}", w, p.rest()))?;
                Ok(konst(v as u128, *n))
            }
            Ty::Ptr | Ty::Void | Ty::Other => parse_int(w).map(|v| Val::C(v as u64)).ok_or(format!("ptr const {:?}", w)),
            _ => Err(format!("const {:?} of {:?}", w, ty)),
        }
    }

    pub fn get_fn(&mut self, f: usize) -> Result<&'static Func, String> {
        if let Some(p) = self.fns[f].parsed {
            return Ok(p);
        }
        let (a, e) = self.fns[f].range.ok_or_else(|| format!("no body: {}", self.fns[f].name))?;
        let text: &'static str = self.text;
        let body = &text[a..e];
        let func = self.parse_fn(f, body)?;
        let func: &'static Func = Box::leak(Box::new(func));
        self.fns[f].parsed = Some(func);
        Ok(func)
    }
    fn ext(&mut self, name: &str) -> usize {
        if let Some(&i) = self.ext_by_name.get(name) {
            return i;
        }
        let i = self.exts.len();
        self.exts.push(name.to_string());
        self.ext_by_name.insert(name.to_string(), i);
        i
    }
    fn parse_fn(&mut self, idx: usize, body: &str) -> Result<Func, String> {
        let mut lines = body.lines();
        let head = lines.next().unwrap();
        let mut fp = FnP { regs: HashMap::new(), nregs: 0, blocks: HashMap::new(), nblocks: 0 };
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let at = head.find('@').unwrap();
            let mut p = P { s: head.as_bytes(), i: at + 1 };
            p.name();
            p.expect(b'(')?;
            if !p.eat(b')') {
                loop {
                    if p.peek() == b'.' {
                        return Err("varargs".into());
                    }
                    p.ty()?;
                    p.attrs()?;
                    p.expect(b'%')?;
                    let n = p.name();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    params.push(fp.reg(&n));
                    if p.eat(b')') {
                        break;
                    }
                    p.expect(b',')?;
                }
            }
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let all: Vec<&str> = lines.collect();
        let mut i = 0;
        let mut ninst = 0;
        while i < all.len() {
            let l = all[i];
            i += 1;
            if l.is_empty() || l.starts_with('}') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut p = P { s: l.as_bytes(), i: 0 };
                let n = p.name();
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                let id = fp.block(&n);
                cur = Some((id, Block { phis: vec![], insts: vec![] }));
                continue;
            }
            if cur.is_none() {
                let id = fp.block(&unnamed.to_string());
                cur = Some((id, Block { phis: vec![], insts: vec![] }));
            }
            let mut line = l.to_string();
            let t = l.trim_start();
            if t.starts_with("switch ") && !l.contains(']') {
                while i < all.len() && !all[i].contains(']') {
                    line.push(' ');
                    line.push_str(all[i].trim());
                    i += 1;
                }
                line.push(' ');
                line.push_str(all[i].trim());
                i += 1;
            } else if t.contains("invoke ") {
                line.push(' ');
                line.push_str(all[i].trim());
                i += 1;
            } else if t.contains("= landingpad ") {
                while i < all.len() {
                    let n = all[i].trim_start();
                    if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            let blk = &mut cur.as_mut().unwrap().1;
            match self.parse_inst(&line, &mut fp, blk) {
                Ok(()) => {}
                Err(e) => blk.insts.push(Inst::Bad(format!("{} in {:?}", e, line.trim()))),
            }
            ninst += 1;
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        // order by id; ids were given in order of first mention
        let entry = blocks[0].0;
        let mut v: Vec<Option<Block>> = (0..fp.nblocks).map(|_| None).collect();
        for (id, b) in blocks {
            v[id as usize] = Some(b);
        }
        let mut out: Vec<Block> = v.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![Inst::Unreachable] })).collect();
        assert!(entry == 0 || true);
        if entry != 0 {
            // keep ids; put a jump at a fresh block? entry is always mentioned first
            out.swap(0, 0);
            return Err("entry block not first".into());
        }
        Ok(Func { name: self.fns[idx].name.clone(), idx, params, nregs: fp.nregs, blocks: out, ninst })
    }
    fn opd(&mut self, p: &mut P, ty: &Ty, fp: &mut FnP) -> Result<Opd, String> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(Opd::R(fp.reg(&n)));
        }
        Ok(Opd::C(self.cval(p, ty)?))
    }
    fn topd(&mut self, p: &mut P, fp: &mut FnP) -> Result<(Ty, Opd), String> {
        let t = p.ty()?;
        let o = self.opd(p, &t, fp)?;
        Ok((t, o))
    }
    fn label(&mut self, p: &mut P, fp: &mut FnP) -> Result<u32, String> {
        if !p.eat_word("label") {
            return Err("label".into());
        }
        p.expect(b'%')?;
        let n = p.name();
        Ok(fp.block(&n))
    }
    fn parse_inst(&mut self, line: &str, fp: &mut FnP, blk: &mut Block) -> Result<(), String> {
        let mut p = P { s: line.as_bytes(), i: 0 };
        let mut dst = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = Some(fp.reg(&n));
            p.expect(b'=')?;
        }
        let mut op = p.word().to_string();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.word().to_string();
        }
        let d = dst.unwrap_or(u32::MAX);
        let (sw, lanes): (fn(&Ty) -> Result<u16, String>, fn(&Ty) -> u32) = (
            |t| match t {
                Ty::Vec(_, e) => Ok(e.bits()),
                t if t.is_scalar() => Ok(t.bits()),
                _ => Err(format!("scalar {:?}", t)),
            },
            |t| match t {
                Ty::Vec(n, _) => *n,
                _ => 0,
            },
        );
        let skipflags = |p: &mut P| {
            while matches!(
                p.peek_word(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak"
            ) {
                p.word();
            }
        };
        let inst = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                skipflags(&mut p);
                let (t, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let b = self.opd(&mut p, &t, fp)?;
                Inst::Bin(binop(&op).unwrap(), sw(&t)?, lanes(&t), d, a, b)
            }
            "fneg" => {
                skipflags(&mut p);
                let (t, a) = self.topd(&mut p, fp)?;
                Inst::FNeg(t.bits(), d, a)
            }
            "icmp" => {
                skipflags(&mut p);
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("pred {}", x)),
                };
                let (t, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let b = self.opd(&mut p, &t, fp)?;
                Inst::ICmp(pr, sw(&t)?, lanes(&t), d, a, b)
            }
            "fcmp" => {
                skipflags(&mut p);
                let pr = p.word().to_string();
                let (t, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let b = self.opd(&mut p, &t, fp)?;
                Inst::FCmp(pr, t.bits(), d, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                skipflags(&mut p);
                let (t, a) = self.topd(&mut p, fp)?;
                if !p.eat_word("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                if op == "bitcast" {
                    if t.is_scalar() && t2.is_scalar() {
                        Inst::Move(d, a)
                    } else {
                        Inst::BitCast(leak(t), leak(t2), d, a)
                    }
                } else {
                    let (wf, wt) = (sw(&t)?, sw(&t2)?);
                    let k = match op.as_str() {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        "sitofp" => CastK::SIToFP,
                        "uitofp" => CastK::UIToFP,
                        "fptosi" => CastK::FPToSI,
                        "fptoui" => CastK::FPToUI,
                        "fpext" => CastK::FPExt,
                        "fptrunc" => CastK::FPTrunc,
                        _ => {
                            if wf > wt {
                                CastK::Trunc
                            } else if wf < wt {
                                CastK::ZExt
                            } else {
                                CastK::Same
                            }
                        }
                    };
                    Inst::Cast(k, wf, wt, lanes(&t), d, a)
                }
            }
            "freeze" => {
                let (_, a) = self.topd(&mut p, fp)?;
                Inst::Move(d, a)
            }
            "select" => {
                skipflags(&mut p);
                let (ct, c) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (vt, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, b) = self.topd(&mut p, fp)?;
                Inst::Select(d, lanes(&ct), sw(&vt).unwrap_or(0), c, a, b)
            }
            "getelementptr" => {
                skipflags(&mut p);
                let sty = p.ty()?;
                p.expect(b',')?;
                let (_, base) = self.topd(&mut p, fp)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = sty.clone();
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (t, v) = self.topd(&mut p, fp)?;
                    let scale;
                    if first {
                        scale = sty.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(f, _) => {
                                let k = match &v {
                                    Opd::C(c) => c.as_c().unwrap(),
                                    _ => return Err("gep struct idx".into()),
                                };
                                off += cur.field_off(k as usize) as i64;
                                cur = f[k as usize].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size() as i64;
                                cur = (*e).clone();
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match v {
                        Opd::C(c) => off = off.wrapping_add(sx(c.as_c().unwrap(), t.bits()).wrapping_mul(scale)),
                        v => idx.push((v, t.bits(), scale)),
                    }
                }
                Inst::Gep(d, base, off, idx)
            }
            "load" => {
                skipflags(&mut p);
                let t = p.ty()?;
                p.expect(b',')?;
                let (_, a) = self.topd(&mut p, fp)?;
                Inst::Load(d, leak(t), a)
            }
            "store" => {
                skipflags(&mut p);
                let (t, v) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, a) = self.topd(&mut p, fp)?;
                Inst::Store(leak(t), v, a)
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = p.ty()?;
                let mut n = 1;
                if p.eat(b',') && p.peek().is_ascii_alphabetic() && p.peek_word() != "align" {
                    let (_, c) = self.topd(&mut p, fp)?;
                    n = match c {
                        Opd::C(c) => c.as_c().unwrap(),
                        _ => return Err("dynamic alloca".into()),
                    };
                }
                Inst::Alloca(d, t.size() * n)
            }
            "call" | "invoke" => {
                // [fast-math] [cc] [ret attrs] ty [fnty] callee(args)
                loop {
                    p.attrs()?;
                    match p.peek_word() {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "tailcc" => {
                            p.word();
                        }
                        _ => break,
                    }
                }
                let _rt = p.ty()?;
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                enum C {
                    N(String),
                    O(Opd),
                }
                let callee = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        C::N(p.name())
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        C::O(Opd::R(fp.reg(&n)))
                    }
                    _ => {
                        if p.peek_word() == "asm" {
                            if line.contains("asm sideeffect \"\"") {
                                return Ok(()); // black_box / compiler fence
                            }
                            return Err("inline asm".into());
                        }
                        C::O(Opd::C(self.cval(&mut p, &Ty::Ptr)?))
                    }
                };
                if let C::N(n) = &callee {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.sideeffect")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.invariant")
                    {
                        return Ok(());
                    }
                }
                p.expect(b'(')?;
                let mut args = vec![];
                let mut ws = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = p.ty()?;
                        p.attrs()?;
                        if t == Ty::Other {
                            // metadata argument
                            while !matches!(p.peek(), b',' | b')') {
                                p.i += 1;
                            }
                            args.push(Opd::C(Val::C(0)));
                            ws.push(0);
                        } else {
                            args.push(self.opd(&mut p, &t, fp)?);
                            ws.push(if t.is_scalar() {
                                t.bits()
                            } else if let Ty::Vec(_, e) = &t {
                                e.bits()
                            } else {
                                0
                            });
                        }
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',')?;
                    }
                }
                let cal = match callee {
                    C::O(o) => Callee::Ind(o),
                    C::N(n) => {
                        let n = self.aliases.get(&n).cloned().unwrap_or(n);
                        match self.fn_by_name.get(&n) {
                            Some(&f) if self.fns[f].range.is_some() => Callee::Fn(f),
                            _ => Callee::Ext(self.ext(&n)),
                        }
                    }
                };
                let mut normal = None;
                if op == "invoke" {
                    // attributes, then: to label %a unwind label %b
                    let pos = line.rfind(" to label ").ok_or("invoke")?;
                    p.i = pos;
                    p.eat_word("to");
                    normal = Some(self.label(&mut p, fp)?);
                }
                Inst::Call(dst, cal, args, ws, normal)
            }
            "phi" => {
                skipflags(&mut p);
                let t = p.ty()?;
                let mut m = HashMap::new();
                loop {
                    p.expect(b'[')?;
                    let v = self.opd(&mut p, &t, fp)?;
                    p.expect(b',')?;
                    p.expect(b'%')?;
                    let n = p.name();
                    let b = fp.block(&n);
                    p.expect(b']')?;
                    m.insert(b, v);
                    if !p.eat(b',') || p.peek() == b'!' {
                        break;
                    }
                }
                blk.phis.push((d, m));
                return Ok(());
            }
            "br" => {
                if p.peek_word() == "label" {
                    Inst::Br(self.label(&mut p, fp)?)
                } else {
                    let (_, c) = self.topd(&mut p, fp)?;
                    p.expect(b',')?;
                    let a = self.label(&mut p, fp)?;
                    p.expect(b',')?;
                    let b = self.label(&mut p, fp)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let def = self.label(&mut p, fp)?;
                p.expect(b'[')?;
                let mut cs = vec![];
                while !p.eat(b']') {
                    let t = p.ty()?;
                    let c = self.cval(&mut p, &t)?;
                    p.expect(b',')?;
                    let l = self.label(&mut p, fp)?;
                    cs.push((c.as_u128(t.bits()).unwrap(), l));
                }
                Inst::Switch(t.bits(), v, def, cs)
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(&mut p, &t, fp)?;
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "extractvalue" => {
                let (_, a) = self.topd(&mut p, fp)?;
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.int()? as u32);
                }
                Inst::ExtractValue(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, v) = self.topd(&mut p, fp)?;
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.int()? as u32);
                }
                Inst::InsertValue(d, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, i) = self.topd(&mut p, fp)?;
                Inst::ExtractElt(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, v) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, i) = self.topd(&mut p, fp)?;
                Inst::InsertElt(d, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, b) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let mt = p.ty()?;
                let m = self.cval(&mut p, &mt)?;
                let mv = match m {
                    Val::A(v) => v.iter().map(|x| x.as_c().unwrap() as i32).collect(),
                    _ => return Err("mask".into()),
                };
                Inst::Shuffle(d, a, b, mv)
            }
            "atomicrmw" => {
                skipflags(&mut p);
                let o = p.word().to_string();
                let (_, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (t, v) = self.topd(&mut p, fp)?;
                Inst::AtomicRMW(o, t.bits(), d, a, v)
            }
            "cmpxchg" => {
                skipflags(&mut p);
                let (_, a) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (t, c) = self.topd(&mut p, fp)?;
                p.expect(b',')?;
                let (_, n) = self.topd(&mut p, fp)?;
                Inst::CmpXchg(leak(t), d, a, c, n)
            }
            "fence" => return Ok(()),
            "landingpad" => Inst::Move(d, Opd::C(Val::A(std::rc::Rc::new(vec![Val::C(0), Val::C(0)])))),
            "resume" => Inst::Unreachable,
            _ => return Err(format!("opcode {}", op)),
        };
        blk.insts.push(inst);
        Ok(())
    }
}
struct FnP {
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}
impl FnP {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
}
pub fn binop(w: &str) -> Option<Op> {
    Some(match w {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "urem" => Op::URem,
        "sdiv" => Op::SDiv,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        "fadd" => Op::FAdd,
        "fsub" => Op::FSub,
        "fmul" => Op::FMul,
        "fdiv" => Op::FDiv,
        _ => return None,
    })
}
pub fn sx(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
