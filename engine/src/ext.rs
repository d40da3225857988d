//! Models of everything without a body: the harness interface, the allocator, libc, intrinsics
//! and a small in-memory file system.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Node {
    Dir(Vec<(String, usize)>, usize), // children, parent
    File(u64, u64),
    Link(String),
}
#[derive(Clone, Debug)]
pub struct Fs {
    pub nodes: Vec<Node>,
    pub fds: Vec<Option<(usize, u64)>>,
    pub opened: Vec<usize>,
    /// open directory streams: handle, node, entries already returned
    pub dirs: Vec<(u64, usize, usize)>,
    /// (limit of bytes per read, index of the failing call, its errno) of reads and of opens
    pub faults: [(u64, u64, u64); 3],
    pub calls: [u64; 3],
}
impl Default for Fs {
    fn default() -> Fs {
        Fs { nodes: vec![Node::Dir(vec![], 0)], fds: vec![], opened: vec![], dirs: vec![], faults: [(u64::MAX, u64::MAX, 0); 3], calls: [0; 3] }
    }
}
const ROOT: &str = "/vfs/root";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Sym,
    Choose,
    Assume,
    Check,
    Fail,
    Cover,
    Out,
    Conc,
    HashMode,
    AllocLimit,
    FsRoot,
    FsAdd,
    FsOutside,
    FsFault,
    Opendir,
    Readdir,
    Closedir,
    Dirfd,
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Nop,
    Hash,
    RandKeys,
    Panic,
    Format,
    Bcmp,
    Strlen,
    Strerror,
    Errno,
    Getenv,
    Open,
    Close,
    Read,
    Lseek,
    Fstat,
    Stat,
    Statx,
    Realpath,
    Readlink,
    Getcwd,
    Malloc,
    Free,
    Intr,
    Write,
    SymReady,
    Unknown,
}
pub fn classify(n: &str) -> K {
    match n {
        "vp_sym" => return K::Sym,
        "vp_choose" => return K::Choose,
        "vp_assume" => return K::Assume,
        "vp_check" => return K::Check,
        "vp_fail" => return K::Fail,
        "vp_cover" => return K::Cover,
        "vp_out" => return K::Out,
        "vp_conc" => return K::Conc,
        "vp_hash_mode" => return K::HashMode,
        "vp_alloc_limit" => return K::AllocLimit,
        "vp_fs_root" => return K::FsRoot,
        "vp_fs_add" => return K::FsAdd,
        "vp_fs_outside" => return K::FsOutside,
        "vp_fs_fault" => return K::FsFault,
        "opendir" => return K::Opendir,
        "readdir64" | "readdir" => return K::Readdir,
        "closedir" => return K::Closedir,
        "dirfd" => return K::Dirfd,
        "vp_sym_mode" => return K::SymReady,
        "bcmp" | "memcmp" => return K::Bcmp,
        "strlen" => return K::Strlen,
        "__xpg_strerror_r" => return K::Strerror,
        "__errno_location" => return K::Errno,
        "getenv" => return K::Getenv,
        "open64" | "open" => return K::Open,
        "close" => return K::Close,
        "read" => return K::Read,
        "lseek64" | "lseek" => return K::Lseek,
        "fstat64" | "fstat" => return K::Fstat,
        "stat64" | "stat" | "lstat64" => return K::Stat,
        "statx" => return K::Statx,
        "realpath" => return K::Realpath,
        "readlink" => return K::Readlink,
        "getcwd" => return K::Getcwd,
        "malloc" => return K::Malloc,
        "free" => return K::Free,
        "write" => return K::Write,
        "abort" | "exit" | "_exit" => return K::Panic,
        "__cxa_thread_atexit_impl" => return K::Nop,
        _ => {}
    }
    if n.starts_with("llvm.") {
        return K::Intr;
    }
    if n.ends_with("___rust_alloc") {
        return K::Alloc;
    }
    if n.ends_with("___rust_alloc_zeroed") {
        return K::AllocZ;
    }
    if n.ends_with("___rust_realloc") {
        return K::Realloc;
    }
    if n.ends_with("___rust_dealloc") {
        return K::Dealloc;
    }
    if n.contains("no_alloc_shim") {
        return K::Nop;
    }
    if n.contains("8hash_one") {
        return K::Hash;
    }
    if n.contains("hashmap_random_keys") {
        return K::RandKeys;
    }
    if n.contains("12format_inner") {
        return K::Format;
    }
    if n.contains("panicking")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("index_fail")
        || n.contains("slice_error_fail")
        || n.contains("rust_panic")
        || n.contains("begin_unwind")
        || n.contains("handle_error")
        || n.contains("handle_alloc_error")
        || n.contains("capacity_overflow")
        || n.contains("panic_already")
        || n.contains("len_mismatch_fail")
        || n.contains("_fail")
        || n.contains("panic")
    {
        return K::Panic;
    }
    K::Unknown
}
type R<X> = Result<X, Stop>;

fn pow2(n: u64) -> u64 {
    n.max(1)
}

impl Ex {
    pub fn external(&mut self, st: &mut State, e: usize, a: &[Val], ws: &[u16]) -> R<Option<Val>> {
        while self.ext_kind.len() <= e {
            self.ext_kind.push(None);
        }
        let k = match self.ext_kind[e] {
            Some(k) => k,
            None => {
                let k = classify(&self.m.exts[e]);
                self.ext_kind[e] = Some(k);
                k
            }
        };
        match k {
            K::Sym => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)?;
                for i in 0..n {
                    let v = tm().var_at(st.nvars, 8);
                    st.nvars += 1;
                    st.mem.write(p + i, &Val::S(v), 8)?;
                }
                Ok(None)
            }
            K::Choose => {
                let n = self.conc(st, &a[0], 64)?;
                let v = tm().var_at(st.nvars, 8);
                let kn = tm().konst(n as u128, 8);
                let c = if n >= 256 { TM::TRUE } else { tm().bin(Op::Ult, v, kn) };
                // not yet part of the state: make it so before branching (re-executions see the
                // counter unchanged, the constraint is idempotent)
                if !st.pc.contains(&c) {
                    // var is fresh on this path: its model value is 0, or what a sibling left
                    if tm().eval(c, &st.model) != 1 {
                        let m = self.feasible(st, c)?.ok_or(Stop::Infeasible)?;
                        st.model = m;
                    }
                    self.add_pc(st, c);
                }
                let x = self.conc(st, &Val::S(v), 8)?;
                st.nvars += 1;
                Ok(Some(Val::C(x)))
            }
            K::Assume => {
                let c = a[0].t(1);
                if c == TM::FALSE {
                    return Err(Stop::Infeasible);
                }
                if tm().eval(c, &st.model) != 1 {
                    match self.feasible(st, c)? {
                        Some(m) => st.model = m,
                        None => return Err(Stop::Infeasible),
                    }
                }
                self.add_pc(st, c);
                Ok(None)
            }
            K::Check => {
                let c = a[0].t(1);
                self.checks += 1;
                if c == TM::TRUE {
                    self.checks_trivial += 1;
                    return Ok(None);
                }
                self.asserting = true;
                let r = self.choose(st, c);
                self.asserting = false;
                if r? {
                    Ok(None)
                } else {
                    let p = self.addr(st, &a[1])?;
                    let n = self.conc(st, &a[2], 64)?;
                    let id = self.cstr(st, p, n)?;
                    Err(Stop::Violation("check".into(), id))
                }
            }
            K::Fail => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)?;
                let id = self.cstr(st, p, n)?;
                Err(Stop::Violation("check".into(), id))
            }
            K::Cover => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)?;
                let id = self.cstr(st, p, n)?;
                Rc::make_mut(&mut st.covers).insert(id);
                Ok(None)
            }
            K::Out => {
                st.outs.push(a[0].clone());
                Ok(None)
            }
            K::Conc => {
                let x = self.conc(st, &a[0], 64)?;
                Ok(Some(Val::C(x)))
            }
            K::AllocLimit => {
                st.alloc_cap = self.conc(st, &a[0], 64)?;
                Ok(None)
            }
            K::HashMode => {
                st.hash_mode = self.conc(st, &a[0], 64)?;
                Ok(None)
            }
            K::SymReady => Ok(Some(Val::C(1))),
            K::Alloc | K::AllocZ | K::Malloc => {
                let n = self.size_of_alloc(st, &a[0])?;
                Ok(Some(Val::C(st.mem.alloc(pow2(n)))))
            }
            K::Realloc => {
                // (ptr, old, align, new)
                let p = self.addr(st, &a[0])?;
                let n = self.size_of_alloc(st, &a[3])?;
                let old = st.mem.size_of(p).unwrap_or(0);
                let np = st.mem.alloc(pow2(n));
                let have = match st.mem.obj(p, 0) {
                    Ok((o, _)) => (o.data.len() as u64).min(old),
                    Err(_) => 0,
                };
                st.mem.copy(np, p, have.min(n))?;
                st.mem.free(p)?;
                Ok(Some(Val::C(np)))
            }
            K::Dealloc | K::Free => {
                let p = self.addr(st, &a[0])?;
                if p != 0 {
                    st.mem.free(p)?;
                }
                Ok(None)
            }
            K::Nop => Ok(Some(Val::C(0))),
            K::Hash => Ok(Some(Val::C(0))),
            K::RandKeys => Ok(Some(Val::A(Rc::new(vec![Val::C(0), Val::C(0)])))),
            K::Format => {
                // String::new()
                let p = self.addr(st, &a[0])?;
                st.mem.write(p, &Val::C(0), 64)?;
                st.mem.write(p + 8, &Val::C(1), 64)?;
                st.mem.write(p + 16, &Val::C(0), 64)?;
                Ok(None)
            }
            K::Panic => {
                let n = self.m.exts[e].clone();
                let mut msg = short(&n);
                if (n.ends_with("9panicking5panic") || n.contains("expect_failed") || n.ends_with("6result13unwrap_failed")) && a.len() >= 2 {
                    if let (Val::C(p), Val::C(l)) = (&a[0], &a[1]) {
                        if let Ok(s) = self.cstr(st, *p, *l) {
                            msg = format!("{}: {}", msg, s);
                        }
                    }
                }
                Err(Stop::Violation("panic".into(), msg))
            }
            K::Bcmp => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                if self.m.exts[e] == "bcmp" {
                    let mut eq = TM::TRUE;
                    for (i, j) in x.iter().zip(&y) {
                        let (i, j) = (i.t(8), j.t(8));
                        let c = tm().eq(i, j);
                        eq = tm().and(eq, c);
                        if eq == TM::FALSE {
                            break;
                        }
                    }
                    let ne = tm().not(eq);
                    return Ok(Some(tv(tm().zext(ne, 32))));
                }
                // memcmp: sign of the first difference
                let mut acc = tm().konst(0, 32);
                for (i, j) in x.iter().zip(&y).rev() {
                    let (i, j) = (i.t(8), j.t(8));
                    let lt = tm().bin(Op::Ult, i, j);
                    let gt = tm().bin(Op::Ult, j, i);
                    let (m1, p1) = (tm().konst(!0, 32), tm().konst(1, 32));
                    let r = tm().ite(gt, p1, acc);
                    acc = tm().ite(lt, m1, r);
                }
                Ok(Some(tv(acc)))
            }
            K::Strlen => {
                let p = self.addr(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = st.mem.read_byte(p + n)?;
                    let z = tm().konst(0, 8);
                    let bt = b.t(8);
                    let c = tm().eq(bt, z);
                    if self.choose(st, c)? {
                        return Ok(Some(Val::C(n)));
                    }
                    n += 1;
                }
            }
            K::Errno => Ok(Some(Val::C(st.errno))),
            K::Getenv => Ok(Some(Val::C(0))),
            K::Write => Ok(Some(a[2].clone())),
            K::Intr => {
                let n = self.m.exts[e].clone();
                self.intrinsic(st, &n, a, ws)
            }
            K::Unknown => eng(format!("external function {}", self.m.exts[e])),
            _ => self.fs_call(st, k, a),
        }
    }
    /// With a hash mode, hashing is the real function with keys derived from the mode: replaces a
    /// call to the stub of `BuildHasher::hash_one(&RandomState, &key)`.
    pub fn real_hash(&mut self, st: &mut State, e: usize, mut a: Vec<Val>) -> R<(Result<usize, usize>, Vec<Val>)> {
        if classify(&self.m.exts[e]) != K::Hash {
            return Ok((Err(e), a));
        }
        let n = format!("{}$real", self.m.exts[e]);
        let f = match self.m.fn_by_name.get(&n).copied() {
            Some(f) => f,
            None => return eng(format!("no body for {}", n)),
        };
        let p = self.addr(st, &a[0])?;
        let q = st.mem.alloc(16);
        for k in 0..2u64 {
            let v = st.mem.read(p + 8 * k, 64)?;
            let v = self.conc(st, &v, 64)?;
            let x = st.hash_mode.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17 * k as u32);
            st.mem.write(q + 8 * k, &Val::C(v ^ x), 64)?;
        }
        a[0] = Val::C(q);
        Ok((Ok(f), a))
    }
    fn size_of_alloc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let cap0 = st.alloc_cap;
        match v {
            Val::C(n) => {
                if *n > cap0 {
                    return Err(Stop::Violation("alloc".into(), format!("allocation of {} bytes", n)));
                }
                Ok(*n)
            }
            Val::S(t) => {
                let t = *t;
                let cap = tm().konst(cap0 as u128, 64);
                let c = tm().bin(Op::Ule, t, cap);
                if !self.choose(st, c)? {
                    return Err(Stop::Violation("alloc".into(), format!("allocation of more than {} bytes", cap0)));
                }
                // reserve the most it can be; contents are materialised on demand
                Ok((tm().umax(t).min(cap0 as u128)) as u64)
            }
            _ => eng("alloc size"),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], ws: &[u16]) -> R<Option<Val>> {
        let s = &n[5..];
        let w = ws.first().copied().unwrap_or(0);
        let lanes2 = |f: &dyn Fn(&Val, &Val) -> Val| -> Val {
            match (&a[0], &a[1]) {
                (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
                (x, y) => f(x, y),
            }
        };
        if s.starts_with("memcpy") || s.starts_with("memmove") {
            let len = self.conc(st, &a[2], 64)?;
            if len > 0 {
                let d = self.addr(st, &a[0])?;
                let p = self.addr(st, &a[1])?;
                st.mem.copy(d, p, len)?;
            }
            return Ok(None);
        }
        if s.starts_with("memset") {
            let len = self.conc(st, &a[2], 64)?;
            if len > 0 {
                let d = self.addr(st, &a[0])?;
                for i in 0..len {
                    st.mem.write(d + i, &a[1], 8)?;
                }
            }
            return Ok(None);
        }
        for (p, pr, keep) in [
            ("umax.", Pred::Ugt, true),
            ("umin.", Pred::Ult, true),
            ("smax.", Pred::Sgt, true),
            ("smin.", Pred::Slt, true),
        ] {
            if s.starts_with(p) && keep {
                let r = lanes2(&|x, y| {
                    let c = icmp(pr, w, x, y);
                    match c.as_c() {
                        Some(1) => x.clone(),
                        Some(_) => y.clone(),
                        None => ite_w(c.t(1), x, y, w),
                    }
                });
                return Ok(Some(r));
            }
        }
        if s.starts_with("vector.reduce.") {
            let k = s["vector.reduce.".len()..].split('.').next().unwrap();
            let op = match k {
                "add" => Op::Add,
                "or" => Op::Or,
                "and" => Op::And,
                "xor" => Op::Xor,
                "mul" => Op::Mul,
                _ => return eng(format!("intrinsic {}", n)),
            };
            if let Val::A(v) = &a[0] {
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    acc = bin(op, w, &acc, x);
                }
                return Ok(Some(acc));
            }
        }
        if s.starts_with("ctpop.") {
            if matches!(a[0], Val::A(_)) {
                return eng("ctpop vector");
            }
            let x = a[0].t(w);
            let mut acc = tm().konst(0, w);
            for i in 0..w {
                let b = tm().extract(x, i, 1);
                let z = tm().zext(b, w);
                acc = tm().bin(Op::Add, acc, z);
            }
            return Ok(Some(tv(acc)));
        }
        if s.starts_with("ctlz.") || s.starts_with("cttz.") {
            let lead = s.starts_with("ctlz.");
            let x = a[0].t(w);
            let mut acc = tm().konst(w as u128, w);
            for i in 0..w {
                // the last one to apply must be the outermost: bit nearest the counted end
                let pos = if lead { i } else { w - 1 - i };
                let cnt = if lead { w - 1 - pos } else { pos };
                let b = tm().extract(x, pos, 1);
                let k = tm().konst(cnt as u128, w);
                acc = tm().ite(b, k, acc);
            }
            return Ok(Some(tv(acc)));
        }
        if s.starts_with("bswap.") {
            let x = a[0].t(w);
            let mut acc: Option<T> = None;
            for i in 0..w / 8 {
                let b = tm().extract(x, i * 8, 8);
                acc = Some(match acc {
                    None => b,
                    Some(h) => tm().concat(h, b),
                });
            }
            return Ok(Some(tv(acc.unwrap())));
        }
        if s.starts_with("bitreverse.") {
            let x = a[0].t(w);
            let mut acc: Option<T> = None;
            for i in 0..w {
                let b = tm().extract(x, i, 1);
                acc = Some(match acc {
                    None => b,
                    Some(h) => tm().concat(h, b),
                });
            }
            return Ok(Some(tv(acc.unwrap())));
        }
        if s.starts_with("fshl.") || s.starts_with("fshr.") {
            let kw = konst(w as u128, w);
            let sh = bin(Op::URem, w, &a[2], &kw);
            let inv = bin(Op::Sub, w, &kw, &sh);
            let (l, r) = if s.starts_with("fshl.") { (sh.clone(), inv) } else { (inv, sh.clone()) };
            let x = bin(Op::Shl, w, &a[0], &l);
            let y = bin(Op::LShr, w, &a[1], &r);
            return Ok(Some(bin(Op::Or, w, &x, &y)));
        }
        if s.contains(".with.overflow.") {
            if matches!(a[0], Val::A(_)) {
                return eng("overflow vector");
            }
            let (x, y) = (&a[0], &a[1]);
            let (r, o) = match &s[..4] {
                "uadd" => {
                    let r = bin(Op::Add, w, x, y);
                    let o = icmp(Pred::Ult, w, &r, x);
                    (r, o)
                }
                "usub" => (bin(Op::Sub, w, x, y), icmp(Pred::Ult, w, x, y)),
                "sadd" | "ssub" => {
                    let op = if &s[..4] == "sadd" { Op::Add } else { Op::Sub };
                    let r = bin(op, w, x, y);
                    let (x1, y1) = (cast(CastK::SExt, w, w + 1, x), cast(CastK::SExt, w, w + 1, y));
                    let wide = bin(op, w + 1, &x1, &y1);
                    let back = cast(CastK::SExt, w, w + 1, &r);
                    (r, icmp_t(Pred::Ne, w + 1, &wide, &back))
                }
                "umul" | "smul" => {
                    if w > 64 {
                        return eng("mul.with.overflow > 64");
                    }
                    let k = if &s[..4] == "umul" { CastK::ZExt } else { CastK::SExt };
                    let r = bin(Op::Mul, w, x, y);
                    let (x1, y1) = (cast(k, w, 2 * w, x), cast(k, w, 2 * w, y));
                    let wide = bin(Op::Mul, 2 * w, &x1, &y1);
                    let back = cast(k, w, 2 * w, &r);
                    (r, icmp_t(Pred::Ne, 2 * w, &wide, &back))
                }
                _ => return eng(format!("intrinsic {}", n)),
            };
            return Ok(Some(Val::A(Rc::new(vec![r, o]))));
        }
        if s.starts_with("uadd.sat.") {
            let r = bin(Op::Add, w, &a[0], &a[1]);
            let o = icmp(Pred::Ult, w, &r, &a[0]);
            return Ok(Some(ite_w(o.t(1), &konst(!0, w), &r, w)));
        }
        if s.starts_with("usub.sat.") {
            let r = bin(Op::Sub, w, &a[0], &a[1]);
            let o = icmp(Pred::Ult, w, &a[0], &a[1]);
            return Ok(Some(ite_w(o.t(1), &konst(0, w), &r, w)));
        }
        if s.starts_with("abs.") {
            let neg = bin(Op::Sub, w, &konst(0, w), &a[0]);
            let c = icmp(Pred::Slt, w, &a[0], &konst(0, w));
            return Ok(Some(ite_w(c.t(1), &neg, &a[0], w)));
        }
        if s.starts_with("ucmp.") || s.starts_with("scmp.") {
            // llvm.ucmp.iR.iW
            let rw: u16 = s[5..].split('.').next().unwrap()[1..].parse().unwrap_or(8);
            let lt = icmp(if s.starts_with('u') { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
            let gt = icmp(if s.starts_with('u') { Pred::Ugt } else { Pred::Sgt }, w, &a[0], &a[1]);
            let r = ite_w(gt.t(1), &konst(1, rw), &konst(0, rw), rw);
            return Ok(Some(ite_w(lt.t(1), &konst(!0, rw), &r, rw)));
        }
        if s.starts_with("threadlocal.address") || s.starts_with("ptrmask") || s.starts_with("launder") || s.starts_with("strip.invariant") {
            return Ok(Some(a[0].clone()));
        }
        if s.starts_with("expect") {
            return Ok(Some(a[0].clone()));
        }
        if s.starts_with("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if s.starts_with("trap") || s.starts_with("ubsantrap") {
            return Err(Stop::Violation("panic".into(), "trap".into()));
        }
        if s.starts_with("fabs.") {
            return Ok(Some(bin(Op::And, w, &a[0], &konst(mask(w) >> 1, w))));
        }
        if s.starts_with("fptosi.sat.") || s.starts_with("fptoui.sat.") {
            let rw: u16 = s[11..].split('.').next().unwrap()[1..].parse().unwrap_or(32);
            if let Val::C(x) = a[0] {
                let op = if s.starts_with("fptosi") { Op::FPToSISat } else { Op::FPToUISat };
                return Ok(Some(konst(fold_conv(op, w, rw, x as u128), rw)));
            }
            return eng("symbolic fptosi.sat");
        }
        eng(format!("intrinsic {}", n))
    }

    // ------------------------------------------------------------------ files
    fn set_errno(&mut self, st: &mut State, v: u64) -> R<()> {
        let e = st.errno;
        st.mem.write(e, &Val::C(v), 32)?;
        Ok(())
    }
    fn path_bytes(&mut self, st: &mut State, p: u64) -> R<Vec<Val>> {
        let mut out = vec![];
        loop {
            let b = st.mem.read_byte(p + out.len() as u64)?;
            let bt = b.t(8);
            let z = tm().konst(0, 8);
            let c = tm().eq(bt, z);
            if self.choose(st, c)? {
                return Ok(out);
            }
            out.push(b);
            if out.len() > 4096 {
                return eng("path too long");
            }
        }
    }
    /// resolve a path to a node; Err(errno) when it does not exist
    fn resolve(&mut self, st: &mut State, path: &[Val], follow: bool) -> R<Result<usize, u64>> {
        if path.is_empty() {
            return Ok(Err(2));
        }
        let mut cur = 0usize;
        let mut todo: Vec<Val> = path.to_vec();
        let mut links = 0;
        // relative paths start at the working directory, which is the root here
        loop {
            // strip slashes
            let mut i = 0;
            while i < todo.len() {
                let c = self.is_byte(st, &todo[i].clone(), b'/')?;
                if !c {
                    break;
                }
                i += 1;
            }
            let had_slash = i > 0;
            todo.drain(..i);
            if todo.is_empty() {
                if had_slash {
                    if let Node::Dir(..) = st.fs.nodes[cur] {
                    } else {
                        return Ok(Err(20));
                    }
                }
                return Ok(Ok(cur));
            }
            let mut comp = vec![];
            while comp.len() < todo.len() {
                let b = todo[comp.len()].clone();
                if self.is_byte(st, &b, b'/')? {
                    break;
                }
                comp.push(b);
            }
            todo.drain(..comp.len());
            if comp.len() > 255 {
                return Ok(Err(36));
            }
            let (children, parent) = match &st.fs.nodes[cur] {
                Node::Dir(c, p) => (c.clone(), *p),
                _ => return Ok(Err(20)),
            };
            if self.is_str(st, &comp, ".")? {
                continue;
            }
            if self.is_str(st, &comp, "..")? {
                cur = parent;
                continue;
            }
            let mut found = None;
            for (n, id) in &children {
                if self.is_str(st, &comp, n)? {
                    found = Some(*id);
                    break;
                }
            }
            let id = match found {
                None => return Ok(Err(2)),
                Some(i) => i,
            };
            if let Node::Link(t) = st.fs.nodes[id].clone() {
                if follow || !todo.is_empty() {
                    links += 1;
                    if links > 20 {
                        return Ok(Err(40));
                    }
                    let mut v: Vec<Val> = t.bytes().map(|b| Val::C(b as u64)).collect();
                    if t.starts_with('/') {
                        cur = 0;
                    }
                    v.extend(todo);
                    todo = v;
                    continue;
                }
            }
            cur = id;
        }
    }
    fn is_byte(&mut self, st: &mut State, b: &Val, c: u8) -> R<bool> {
        let bt = b.t(8);
        let k = tm().konst(c as u128, 8);
        let e = tm().eq(bt, k);
        self.choose(st, e)
    }
    fn is_str(&mut self, st: &mut State, b: &[Val], s: &str) -> R<bool> {
        if b.len() != s.len() {
            return Ok(false);
        }
        let mut e = TM::TRUE;
        for (x, y) in b.iter().zip(s.bytes()) {
            let xt = x.t(8);
            let k = tm().konst(y as u128, 8);
            let c = tm().eq(xt, k);
            e = tm().and(e, c);
        }
        self.choose(st, e)
    }
    fn node_path(&self, st: &State, n: usize) -> String {
        if n == 0 {
            return "/".into();
        }
        // find the parent
        for (i, d) in st.fs.nodes.iter().enumerate() {
            if let Node::Dir(c, _) = d {
                for (name, id) in c {
                    if *id == n {
                        let p = self.node_path(st, i);
                        return if p == "/" { format!("/{}", name) } else { format!("{}/{}", p, name) };
                    }
                }
            }
        }
        "?".into()
    }
    /// Count a call and say whether it is the one that fails.
    fn fault(st: &mut State, kind: usize) -> Option<u64> {
        let fs = Rc::make_mut(&mut st.fs);
        let n = fs.calls[kind];
        fs.calls[kind] += 1;
        (n == fs.faults[kind].1).then_some(fs.faults[kind].2)
    }
    fn fs_call(&mut self, st: &mut State, k: K, a: &[Val]) -> R<Option<Val>> {
        let fail = Val::C(!0u64);
        match k {
            K::Strerror => {
                // the text of system errors is not modelled
                let p = self.addr(st, &a[1])?;
                st.mem.write(p, &Val::C(b'?' as u64), 8)?;
                st.mem.write(p + 1, &Val::C(0), 8)?;
                Ok(Some(Val::C(0)))
            }
            K::FsRoot => {
                let p = self.addr(st, &a[0])?;
                for (i, b) in ROOT.bytes().enumerate() {
                    st.mem.write(p + i as u64, &Val::C(b as u64), 8)?;
                }
                Ok(Some(Val::C(ROOT.len() as u64)))
            }
            K::FsAdd => {
                // (path, plen, data, dlen, kind) path relative to the root; kind 0 dir 1 file 2 link
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)?;
                let rel = self.cstr(st, p, n)?;
                let d = self.addr(st, &a[2])?;
                let dl = self.conc(st, &a[3], 64)?;
                let kind = self.conc(st, &a[4], 64)?;
                let full = format!("{}/{}", ROOT, rel);
                let comps: Vec<&str> = full.split('/').filter(|c| !c.is_empty()).collect();
                let node = match kind {
                    0 => Node::Dir(vec![], 0),
                    1 => {
                        let o = st.mem.alloc(dl.max(1));
                        st.mem.copy(o, d, dl)?;
                        Node::File(o, dl)
                    }
                    _ => {
                        let t = self.cstr(st, d, dl)?;
                        Node::Link(t)
                    }
                };
                let fs = Rc::make_mut(&mut st.fs);
                let mut cur = 0;
                for (i, c) in comps.iter().enumerate() {
                    let last = i + 1 == comps.len();
                    let ex = match &fs.nodes[cur] {
                        Node::Dir(ch, _) => ch.iter().find(|x| x.0 == *c).map(|x| x.1),
                        _ => return eng("fs_add through a file"),
                    };
                    cur = match ex {
                        Some(i) => {
                            if last && !matches!(node, Node::Dir(..)) {
                                fs.nodes[i] = node.clone();
                            }
                            i
                        }
                        None => {
                            let id = fs.nodes.len();
                            let nn = if last { node.clone() } else { Node::Dir(vec![], cur) };
                            let nn = if let Node::Dir(v, _) = nn { Node::Dir(v, cur) } else { nn };
                            fs.nodes.push(nn);
                            if let Node::Dir(ch, _) = &mut fs.nodes[cur] {
                                ch.push((c.to_string(), id));
                            }
                            id
                        }
                    };
                }
                Ok(None)
            }
            K::FsOutside => {
                // (path, len): has anything outside that directory been opened?
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)?;
                let rel = self.cstr(st, p, n)?;
                let dir = format!("{}/{}/", ROOT, rel);
                let bad = st.fs.opened.iter().any(|&n| !format!("{}/", self.node_path(st, n)).starts_with(&dir));
                Ok(Some(Val::C(bad as u64)))
            }
            K::FsFault => {
                // (0 reads 1 opens 2 reported size, limit, index, errno)
                let k = self.conc(st, &a[0], 64)? as usize;
                let f = (self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?, self.conc(st, &a[3], 64)?);
                let fs = Rc::make_mut(&mut st.fs);
                fs.faults[k] = f;
                fs.calls[k] = 0;
                Ok(None)
            }
            K::Opendir => {
                let p = self.addr(st, &a[0])?;
                if let Some(e) = Self::fault(st, 1) {
                    self.set_errno(st, e)?;
                    return Ok(Some(Val::C(0)));
                }
                let path = self.path_bytes(st, p)?;
                let e = match self.resolve(st, &path, true)? {
                    Ok(n) if matches!(st.fs.nodes[n], Node::Dir(..)) => {
                        let h = st.mem.alloc(512);
                        let fs = Rc::make_mut(&mut st.fs);
                        fs.opened.push(n);
                        fs.dirs.push((h, n, 0));
                        return Ok(Some(Val::C(h)));
                    }
                    Ok(_) => 20,
                    Err(e) => e,
                };
                self.set_errno(st, e)?;
                Ok(Some(Val::C(0)))
            }
            K::Readdir => {
                let h = self.addr(st, &a[0])?;
                let Some(i) = st.fs.dirs.iter().position(|d| d.0 == h) else {
                    return eng("readdir: unknown stream");
                };
                let (_, node, pos) = st.fs.dirs[i];
                let Node::Dir(ch, parent) = st.fs.nodes[node].clone() else {
                    return eng("readdir: not a directory");
                };
                let (name, id) = match pos {
                    0 => (".".to_string(), node),
                    1 => ("..".to_string(), parent),
                    k if k - 2 < ch.len() => ch[k - 2].clone(),
                    _ => return Ok(Some(Val::C(0))),
                };
                let ty = match st.fs.nodes[id] {
                    Node::Dir(..) => 4,
                    Node::File(..) => 8,
                    Node::Link(_) => 10,
                };
                Rc::make_mut(&mut st.fs).dirs[i].2 += 1;
                st.mem.write(h, &Val::C(id as u64 + 1), 64)?;
                st.mem.write(h + 8, &Val::C(pos as u64 + 1), 64)?;
                st.mem.write(h + 16, &Val::C(280), 16)?;
                st.mem.write(h + 18, &Val::C(ty), 8)?;
                for (k, b) in name.bytes().chain([0]).enumerate() {
                    st.mem.write(h + 19 + k as u64, &Val::C(b as u64), 8)?;
                }
                Ok(Some(Val::C(h)))
            }
            K::Dirfd => Ok(Some(Val::C(1000))),
            K::Closedir => {
                let h = self.addr(st, &a[0])?;
                Rc::make_mut(&mut st.fs).dirs.retain(|d| d.0 != h);
                Ok(Some(Val::C(0)))
            }
            K::Open => {
                let p = self.addr(st, &a[0])?;
                if let Some(e) = Self::fault(st, 1) {
                    self.set_errno(st, e)?;
                    return Ok(Some(Val::C(0xffff_ffff)));
                }
                let path = self.path_bytes(st, p)?;
                match self.resolve(st, &path, true)? {
                    Ok(n) => {
                        let fs = Rc::make_mut(&mut st.fs);
                        fs.opened.push(n);
                        fs.fds.push(Some((n, 0)));
                        let fd = fs.fds.len() as u64 + 2;
                        Ok(Some(Val::C(fd)))
                    }
                    Err(e) => {
                        self.set_errno(st, e)?;
                        Ok(Some(Val::C(0xffff_ffff)))
                    }
                }
            }
            K::Close => {
                let fd = self.conc(st, &a[0], 32)? as usize - 3;
                Rc::make_mut(&mut st.fs).fds[fd] = None;
                Ok(Some(Val::C(0)))
            }
            K::Read => {
                let fd = self.conc(st, &a[0], 32)? as usize - 3;
                let buf = self.addr(st, &a[1])?;
                let n = self.conc(st, &a[2], 64)?;
                let (node, pos) = st.fs.fds[fd].ok_or(Stop::Engine("bad fd".into()))?;
                if let Some(e) = Self::fault(st, 0) {
                    self.set_errno(st, e)?;
                    return Ok(Some(fail));
                }
                match st.fs.nodes[node] {
                    Node::File(o, len) => {
                        let k = n.min(len - pos).min(st.fs.faults[0].0);
                        st.mem.copy(buf, o + pos, k)?;
                        Rc::make_mut(&mut st.fs).fds[fd] = Some((node, pos + k));
                        Ok(Some(Val::C(k)))
                    }
                    _ => {
                        self.set_errno(st, 21)?;
                        Ok(Some(fail))
                    }
                }
            }
            K::Lseek => {
                let fd = self.conc(st, &a[0], 32)? as usize - 3;
                let off = self.conc(st, &a[1], 64)?;
                let wh = self.conc(st, &a[2], 32)?;
                let (node, pos) = st.fs.fds[fd].ok_or(Stop::Engine("bad fd".into()))?;
                let len = match st.fs.nodes[node] {
                    Node::File(_, l) => l,
                    _ => 0,
                };
                let np = match wh {
                    0 => off,
                    1 => pos.wrapping_add(off),
                    _ => len.wrapping_add(off),
                };
                Rc::make_mut(&mut st.fs).fds[fd] = Some((node, np));
                Ok(Some(Val::C(np)))
            }
            K::Statx => {
                // (dirfd, path, flags, mask, buf)
                let fd = self.conc(st, &a[0], 32)?;
                let p = self.addr(st, &a[1])?;
                let flags = self.conc(st, &a[2], 32)?;
                let buf = self.addr(st, &a[4])?;
                let path = if p == 0 { vec![] } else { self.path_bytes(st, p)? };
                let node = if path.is_empty() && flags & 0x1000 != 0 {
                    match st.fs.fds.get((fd as usize).wrapping_sub(3)).cloned().flatten() {
                        Some((n, _)) => Ok(n),
                        None => Err(9),
                    }
                } else {
                    self.resolve(st, &path, flags & 0x100 == 0)?
                };
                match node {
                    Ok(n) => {
                        let (mode, size) = match &st.fs.nodes[n] {
                            Node::Dir(..) => (0o040755u64, 4096),
                            Node::File(_, l) => (0o100644, if st.fs.faults[2].0 == u64::MAX { *l } else { st.fs.faults[2].0 }),
                            Node::Link(t) => (0o120777, t.len() as u64),
                        };
                        for i in 0..32 {
                            st.mem.write(buf + i * 8, &Val::C(0), 64)?;
                        }
                        st.mem.write(buf, &Val::C(0xfff), 32)?;
                        st.mem.write(buf + 4, &Val::C(4096), 32)?;
                        st.mem.write(buf + 16, &Val::C(1), 32)?;
                        st.mem.write(buf + 28, &Val::C(mode), 16)?;
                        st.mem.write(buf + 32, &Val::C(n as u64 + 1), 64)?;
                        st.mem.write(buf + 40, &Val::C(size), 64)?;
                        Ok(Some(Val::C(0)))
                    }
                    Err(e) => {
                        self.set_errno(st, e)?;
                        Ok(Some(Val::C(0xffff_ffff)))
                    }
                }
            }
            K::Realpath => {
                let p = self.addr(st, &a[0])?;
                let path = self.path_bytes(st, p)?;
                match self.resolve(st, &path, true)? {
                    Ok(n) => {
                        let s = self.node_path(st, n);
                        let o = st.mem.alloc(s.len() as u64 + 1);
                        for (i, b) in s.bytes().enumerate() {
                            st.mem.write(o + i as u64, &Val::C(b as u64), 8)?;
                        }
                        Ok(Some(Val::C(o)))
                    }
                    Err(e) => {
                        self.set_errno(st, e)?;
                        Ok(Some(Val::C(0)))
                    }
                }
            }
            K::Getcwd => {
                let p = self.addr(st, &a[0])?;
                st.mem.write(p, &Val::C(b'/' as u64), 16)?;
                Ok(Some(Val::C(p)))
            }
            _ => eng(format!("libc call {:?}", k)),
        }
    }
}
fn icmp_t(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
    if w <= 64 {
        return icmp(p, w, a, b);
    }
    let (x, y) = (a.t(w), b.t(w));
    let e = tm().eq(x, y);
    let _ = p;
    tv(tm().not(e))
}
