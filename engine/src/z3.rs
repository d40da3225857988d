//! libz3 through its C API: translation of terms and satisfiability queries.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_benchmark_to_smtlib_string(
        c: P,
        name: *const c_char,
        logic: *const c_char,
        status: *const c_char,
        attr: *const c_char,
        n: c_uint,
        a: *const P,
        f: P,
    ) -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Answer {
    Sat(std::rc::Rc<Vec<(T, u128)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bvc: HashMap<T, P>,
    boolc: HashMap<T, P>,
    cache: HashMap<Vec<T>, Answer>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub slowest: f64,
    pub has_fp: bool,
    pub dump: Option<String>,
    pub dumped: u32,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let me = Solver {
                c,
                s,
                bvc: HashMap::new(),
                boolc: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                time: 0.0,
                slowest: 0.0,
                has_fp: false,
                dump: None,
                dumped: 0,
            };
            me.set_timeout(s, 3000);
            me
        }
    }
    fn set_timeout(&self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            let sym = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, sym, ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let ty = Z3_mk_bv_sort(self.c, w as c_uint);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, ty)
            } else {
                let s = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), ty)
            }
        }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }
    fn fp(&mut self, tm: &TM, t: T) -> P {
        self.has_fp = true;
        let w = tm.w(t);
        let b = self.bv(tm, t);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, b, self.fsort(w)) }
    }
    pub fn bool(&mut self, tm: &TM, t: T) -> P {
        if let Some(&p) = self.boolc.get(&t) {
            return p;
        }
        let n = tm.nodes[t as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    let (a, b) = if tm.w(n.a) == 1 { (self.bool(tm, n.a), self.bool(tm, n.b)) } else { (self.bv(tm, n.a), self.bv(tm, n.b)) };
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bv(tm, n.a), self.bv(tm, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let (a, b) = (self.fp(tm, n.a), self.fp(tm, n.b));
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        Op::FLe => Z3_mk_fpa_leq(c, a, b),
                        _ => {
                            let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.bool(tm, n.a), self.bool(tm, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.bool(tm, n.a);
                    if tm.cst(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.bool(tm, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.bool(tm, n.a), self.bool(tm, n.b), self.bool(tm, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let b = self.bv(tm, t);
                    Z3_mk_eq(c, b, self.num(1, 1))
                }
            }
        };
        self.boolc.insert(t, r);
        r
    }
    pub fn bv(&mut self, tm: &TM, t: T) -> P {
        if let Some(&p) = self.bvc.get(&t) {
            return p;
        }
        let n = tm.nodes[t as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.k as c_int);
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, n.w as c_uint))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let b = self.bool(tm, t);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Op::Concat => {
                    let (a, b) = (self.bv(tm, n.a), self.bv(tm, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.bv(tm, n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.bv(tm, n.a);
                    Z3_mk_zero_ext(c, (n.w - tm.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.bv(tm, n.a);
                    Z3_mk_sign_ext(c, (n.w - tm.w(n.a)) as c_uint, a)
                }
                Op::Ite => {
                    let (x, y, z) = (self.bool(tm, n.a), self.bv(tm, n.b), self.bv(tm, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(tm, n.a), self.fp(tm, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::SIToFP | Op::UIToFP => {
                    self.has_fp = true;
                    let a = self.bv(tm, n.a);
                    let rm = Z3_mk_fpa_rne(c);
                    let s = self.fsort(n.w);
                    let r = if n.op == Op::SIToFP { Z3_mk_fpa_to_fp_signed(c, rm, a, s) } else { Z3_mk_fpa_to_fp_unsigned(c, rm, a, s) };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FPExt | Op::FPTrunc => {
                    let a = self.fp(tm, n.a);
                    let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FPToSISat | Op::FPToUISat => {
                    // only used for values the caller constrained to be in range
                    let a = self.fp(tm, n.a);
                    let rm = Z3_mk_fpa_rtz(c);
                    if n.op == Op::FPToSISat {
                        Z3_mk_fpa_to_sbv(c, rm, a, n.w as c_uint)
                    } else {
                        Z3_mk_fpa_to_ubv(c, rm, a, n.w as c_uint)
                    }
                }
                _ if n.w == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor) => {
                    let b = self.bool(tm, t);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                _ => {
                    let (a, b) = (self.bv(tm, n.a), self.bv(tm, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bvc.insert(t, r);
        r
    }

    /// Satisfiability of the conjunction of `cs` (already sliced).
    pub fn check(&mut self, tm: &mut TM, mut cs: Vec<T>) -> Answer {
        cs.sort_unstable();
        cs.dedup();
        if let Some(a) = self.cache.get(&cs) {
            self.cached += 1;
            return a.clone();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut vars: Vec<T> = vec![];
        for &c in &cs {
            vars.extend(tm.support(c).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        let asts: Vec<P> = cs.iter().map(|&c| self.bool(tm, c)).collect();
        let mut ans = unsafe {
            Z3_solver_push(self.c, self.s);
            for &a in &asts {
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let ans = self.answer(tm, self.s, r, &vars);
            Z3_solver_pop(self.c, self.s, 1);
            ans
        };
        if let Answer::Unknown = ans {
            unsafe {
                let l = CString::new(if self.has_fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
                let sym = Z3_mk_string_symbol(self.c, l.as_ptr());
                let s = Z3_mk_solver_for_logic(self.c, sym);
                Z3_solver_inc_ref(self.c, s);
                self.set_timeout(s, 60000);
                for &a in &asts {
                    Z3_solver_assert(self.c, s, a);
                }
                let r = Z3_solver_check(self.c, s);
                ans = self.answer(tm, s, r, &vars);
                Z3_solver_dec_ref(self.c, s);
            }
        }
        match ans {
            Answer::Sat(_) => self.sat += 1,
            Answer::Unsat => self.unsat += 1,
            Answer::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        // a sample of the queries is written out for a second solver
        if let Some(dir) = &self.dump {
            let q = self.queries;
            if !matches!(ans, Answer::Unknown) && self.dumped < 40 && (q.is_power_of_two() || q % 97 == 0) {
                unsafe {
                    let n = CString::new("q").unwrap();
                    let l = CString::new("ALL").unwrap();
                    let st = CString::new(if let Answer::Unsat = ans { "unsat" } else { "sat" }).unwrap();
                    let e = CString::new("").unwrap();
                    if let Some((last, init)) = asts.split_last() {
                        let s = Z3_benchmark_to_smtlib_string(self.c, n.as_ptr(), l.as_ptr(), st.as_ptr(), e.as_ptr(), init.len() as c_uint, init.as_ptr(), *last);
                        let s = std::ffi::CStr::from_ptr(s).to_string_lossy();
                        let s = s.replace("k!", "v");
                        let _ = std::fs::write(format!("{}/q{}.smt2", dir, q), s.as_bytes());
                        self.dumped += 1;
                    }
                }
            }
        }
        if !matches!(ans, Answer::Unknown) {
            self.cache.insert(cs, ans.clone());
        }
        ans
    }
    unsafe fn answer(&mut self, tm: &TM, s: P, r: c_int, vars: &[T]) -> Answer {
        match r {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = Vec::with_capacity(vars.len());
                for &v in vars {
                    let a = self.bv(tm, v);
                    let mut res: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut res);
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, res));
                    out.push((v, s.to_str().unwrap().parse::<u128>().unwrap()));
                }
                Z3_model_dec_ref(self.c, m);
                Answer::Sat(std::rc::Rc::new(out))
            }
            -1 => Answer::Unsat,
            _ => Answer::Unknown,
        }
    }
}
