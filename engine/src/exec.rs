//! The symbolic executor.
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::val::*;
use crate::z3::{Answer, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Rc<Vec<T>>,
    pub fixed: Rc<HashMap<T, u128>>,
    pub model: Rc<Model>,
    pub nvars: u32,
    pub outs: Vec<Val>,
    pub covers: Rc<BTreeSet<String>>,
    pub steps: u64,
    pub fs: Rc<crate::ext::Fs>,
    pub errno: u64,
    pub hash_mode: u64,
    pub alloc_cap: u64,
    pub forks: u32,
}
#[derive(Debug, Clone)]
pub enum Stop {
    /// assumption not satisfiable / path ends silently
    Infeasible,
    Done,
    Violation(String, String), // kind, message
    Engine(String),
}
impl From<MErr> for Stop {
    fn from(e: MErr) -> Stop {
        let MErr::Bad(s) = e;
        Stop::Engine(format!("memory: {}", s))
    }
}
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
    pub outs: Vec<u64>,
}
pub struct PathRec {
    pub input: Vec<u8>,
    pub outs: Vec<u64>,
}
pub struct Limits {
    pub max_time: f64,
    /// largest object read at a symbolic address without fixing the address
    pub table: u64,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_viol: usize,
    pub max_paths: u64,
    pub keep_paths: usize,
    pub byte_domains: bool,
}
pub struct Ex {
    pub truths: HashMap<T, [u64; 4]>,
    pub domain_queries: u64,
    pub tables_checked: u64,
    pub asserting: bool,
    pub values: HashMap<T, Rc<Vec<u128>>>,
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub lim: Limits,
    pub viols: Vec<Viol>,
    pub viol_keys: BTreeSet<String>,
    pub engine_errs: BTreeMap<String, u64>,
    pub paths_done: u64,
    pub paths_infeasible: u64,
    pub paths_viol: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub covers: BTreeMap<String, u64>,
    pub recs: Vec<PathRec>,
    pub used_fns: BTreeSet<usize>,
    pub t0: Instant,
    pub timed_out: bool,
    pub ext_kind: Vec<Option<crate::ext::K>>,
    pub conc_count: HashMap<(usize, u32, u32), u64>,
    pub fork_sites: HashMap<(usize, u32, u32), u64>,
    pub arg: u64,
    pub maxdepth_seen: usize,
    pub trace: bool,
    pub progress: bool,
}

type R<X> = Result<X, Stop>;

pub fn eng<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Engine(s.into()))
}

impl Ex {
    pub fn run(&mut self, entry: &str, args: &[u64]) -> Result<(), String> {
        let fi = *self.m.fn_by_name.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.m.get_fn(fi)?;
        let ng = self.m.globals.len();
        let mut mem = Mem::new(ng as u32 + 2);
        for g in 0..ng {
            let size = self.m.globals[g].size;
            let mut o = Obj { data: vec![0; size as usize], sym: None, size: size.max(1), ro: false };
            if o.data.is_empty() {
                o.data.push(0);
            }
            mem.set(g as u32 + 1, Some(Rc::new(o)));
            if let Some((ty, v)) = self.m.global_init(g) {
                let a = self.m.globals[g].addr;
                if size > 0 {
                    store_ty(&mut mem, a, &ty, &v).map_err(|e| format!("{:?}", e))?;
                }
            }
            if self.m.globals[g].constant {
                mem.set_ro(g as u32 + 1);
            }
        }
        let mut st = State {
            frames: vec![],
            mem,
            pc: Rc::new(vec![]),
            fixed: Rc::new(HashMap::new()),
            model: Rc::new(Model::default()),
            nvars: 0,
            outs: vec![],
            covers: Rc::new(BTreeSet::new()),
            steps: 0,
            fs: Rc::new(Default::default()),
            errno: 0,
            hash_mode: 0,
            alloc_cap: 1 << 30,
            forks: 0,
        };
        st.errno = st.mem.alloc(8);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, &p) in f.params.iter().enumerate() {
            regs[p as usize] = Val::C(args.get(i).copied().unwrap_or(0));
        }
        st.frames.push(Rc::new(Frame { f, bb: 0, ip: 0, regs, allocas: vec![] }));
        self.used_fns.insert(fi);
        self.work.push(st);
        self.t0 = Instant::now();
        let mut last = Instant::now();
        while let Some(mut st) = self.work.pop() {
            let r = loop {
                match self.step_many(&mut st) {
                    Ok(()) => {
                        if self.t0.elapsed().as_secs_f64() > self.lim.max_time {
                            self.timed_out = true;
                            break Stop::Infeasible;
                        }
                        if self.progress && last.elapsed().as_secs() >= 5 {
                            last = Instant::now();
                            eprintln!(
                                "[{:.0}s] done={} infeas={} viol={} work={} forks={} steps={} q={} z3={:.1}s at {}",
                                self.t0.elapsed().as_secs_f64(),
                                self.paths_done,
                                self.paths_infeasible,
                                self.paths_viol,
                                self.work.len(),
                                self.forks,
                                self.steps,
                                self.solver.queries,
                                self.solver.time,
                                st.frames.last().map(|f| short(&f.f.name)).unwrap_or_default()
                            );
                        }
                    }
                    Err(s) => break s,
                }
            };
            self.finish(st, r);
            if self.timed_out || self.viols.len() >= self.lim.max_viol {
                break;
            }
            if self.paths_done + self.paths_infeasible + self.paths_viol >= self.lim.max_paths {
                self.timed_out = true;
                break;
            }
        }
        Ok(())
    }
    fn assignment(&self, st: &State) -> Vec<u8> {
        (0..st.nvars)
            .map(|i| {
                let v = tm().var_at(i, 8);
                st.model.get(v) as u8
            })
            .collect()
    }
    fn outs(&self, st: &State) -> Vec<u64> {
        st.outs
            .iter()
            .map(|v| match v {
                Val::C(c) => *c,
                Val::S(t) => tm().eval(*t, &st.model) as u64,
                _ => 0,
            })
            .collect()
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        let n = st.frames.len();
        let mut v: Vec<String> = st.frames.iter().rev().take(12).map(|f| short(&f.f.name)).collect();
        if n > 12 {
            v.push(format!("... {} frames", n));
        }
        v
    }
    fn finish(&mut self, st: State, r: Stop) {
        match r {
            Stop::Infeasible => {
                if !self.timed_out {
                    self.paths_infeasible += 1
                }
            }
            Stop::Done => {
                self.paths_done += 1;
                for c in st.covers.iter() {
                    *self.covers.entry(c.clone()).or_insert(0) += 1;
                }
                let k = self.lim.keep_paths;
                let rec = || PathRec { input: self.assignment(&st), outs: self.outs(&st) };
                if self.recs.len() < k {
                    let r = rec();
                    self.recs.push(r);
                } else if k > 0 {
                    // deterministic reservoir
                    let h = (self.paths_done.wrapping_mul(0x9E3779B97F4A7C15) >> 20) % self.paths_done;
                    if (h as usize) < k {
                        let r = rec();
                        self.recs[h as usize] = r;
                    }
                }
            }
            Stop::Violation(kind, msg) => {
                self.paths_viol += 1;
                for c in st.covers.iter() {
                    *self.covers.entry(c.clone()).or_insert(0) += 1;
                }
                let stack = self.stack(&st);
                let key = format!("{} {} {}", kind, msg, stack.first().cloned().unwrap_or_default());
                if self.viol_keys.insert(key) {
                    let v = Viol { kind, msg, input: self.assignment(&st), stack, outs: self.outs(&st) };
                    self.viols.push(v);
                }
            }
            Stop::Engine(e) => {
                let loc = self.stack(&st).into_iter().take(4).collect::<Vec<_>>().join(" < ");
                *self.engine_errs.entry(format!("{} @ {}", e, loc)).or_insert(0) += 1;
            }
        }
    }

    // ---------------------------------------------------------------- solver
    fn slice(&self, st: &State, c: T) -> Vec<T> {
        let tm = tm();
        let mut vars: BTreeSet<T> = tm.support(c).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &k) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = tm.support(k);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(k);
                    for v in s.iter() {
                        ch |= vars.insert(*v);
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// A branch condition over a single 8-bit variable, on a path whose
    /// conditions on that variable mention no other, is decided over its 256
    /// values (the finite-domain case of `feasible`, without the solver).
    fn byte_domain(&mut self, st: &State, c: T) -> Option<Option<Rc<Model>>> {
        if !self.lim.byte_domains || self.asserting {
            return None;
        }
        let tm = tm();
        let sup = tm.support(c);
        if sup.len() != 1 || tm.nodes[sup[0] as usize].w != 8 {
            return None;
        }
        let v = sup[0];
        let mut dom = [!0u64; 4];
        for &k in st.pc.iter() {
            let s = tm.support(k);
            if s.contains(&v) {
                if s.len() != 1 {
                    return None;
                }
                let d = self.truth(k, v);
                for i in 0..4 {
                    dom[i] &= d[i];
                }
            }
        }
        let d = self.truth(c, v);
        for i in 0..4 {
            dom[i] &= d[i];
        }
        self.domain_queries += 1;
        // some of these decisions are put to the solver as well
        if self.domain_queries % 64 == 1 {
            let mut q = self.slice(st, c);
            q.push(c);
            let sat = dom.iter().any(|&d| d != 0);
            match self.solver.check(tm, q) {
                Answer::Sat(_) if !sat => panic!("byte table disagrees with the solver"),
                Answer::Unsat if sat => panic!("byte table disagrees with the solver"),
                _ => {}
            }
            self.tables_checked += 1;
        }
        let x = match (0..256usize).find(|&x| dom[x / 64] >> (x % 64) & 1 == 1) {
            None => return Some(None),
            Some(x) => x as u128,
        };
        let mut m = Model::default();
        m.vals = st.model.vals.clone();
        m.vals.insert(v, x);
        Some(Some(Rc::new(m)))
    }
    fn truth(&mut self, c: T, v: T) -> [u64; 4] {
        if let Some(d) = self.truths.get(&c) {
            return *d;
        }
        if self.values.len() > 50_000 {
            self.values.clear();
        }
        let t = self.value_table(c, v);
        let mut d = [0u64; 4];
        for x in 0..256usize {
            if t[x] == 1 {
                d[x / 64] |= 1 << (x % 64);
            }
        }
        self.truths.insert(c, d);
        d
    }
    /// the values of `t` for each value of its only variable
    fn value_table(&mut self, t: T, v: T) -> Rc<Vec<u128>> {
        if let Some(r) = self.values.get(&t) {
            return r.clone();
        }
        let tm = tm();
        let n = tm.nodes[t as usize];
        let (kids, c) = tm.kids(t);
        let r: Vec<u128> = if n.op == Op::Const {
            vec![n.k; 256]
        } else if t == v {
            (0..256).collect()
        } else {
            let mut k = vec![];
            for &x in kids[..c].iter() {
                k.push(self.value_table(x, v));
            }
            (0..256usize)
                .map(|x| tm.apply(t, [k[0][x], if c > 1 { k[1][x] } else { 0 }, if c > 2 { k[2][x] } else { 0 }]))
                .collect()
        };
        let r = Rc::new(r);
        self.values.insert(t, r.clone());
        r
    }
    /// is pc ∧ c satisfiable? returns an updated model
    pub fn feasible(&mut self, st: &State, c: T) -> R<Option<Rc<Model>>> {
        if c == TM::FALSE {
            return Ok(None);
        }
        if self.t0.elapsed().as_secs_f64() > self.lim.max_time {
            self.timed_out = true;
            return Err(Stop::Infeasible);
        }
        if let Some(r) = self.byte_domain(st, c) {
            return Ok(r);
        }
        let mut q = self.slice(st, c);
        q.push(c);
        match self.solver.check(tm(), q) {
            Answer::Unsat => Ok(None),
            Answer::Unknown => eng("solver: unknown"),
            Answer::Sat(a) => {
                let mut m = Model::default();
                m.vals = st.model.vals.clone();
                for (v, x) in a.iter() {
                    m.vals.insert(*v, *x);
                }
                debug_assert_eq!(tm().eval(c, &m), 1);
                Ok(Some(Rc::new(m)))
            }
        }
    }
    pub fn add_pc(&mut self, st: &mut State, c: T) {
        let n = tm().nodes[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && tm().cst(n.b) == Some(1) {
            let i = tm().nodes[n.a as usize];
            if i.op == Op::Or && i.w == 1 {
                let (x, y) = (tm().not(i.a), tm().not(i.b));
                self.add_pc(st, x);
                self.add_pc(st, y);
                return;
            }
        }
        if c == TM::TRUE || st.pc.contains(&c) {
            return;
        }
        if n.op == Op::Eq {
            if let Some(k) = tm().cst(n.b) {
                if tm().nodes[n.a as usize].op == Op::Var {
                    Rc::make_mut(&mut st.fixed).insert(n.a, k);
                }
            }
        }
        Rc::make_mut(&mut st.pc).push(c);
    }
    fn all_fixed(&self, st: &State, t: T) -> bool {
        let s = tm().support(t);
        s.iter().all(|v| st.fixed.contains_key(v))
    }
    /// truth of c on this path; forks when both are possible
    pub fn choose(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(k) = tm().cst(c) {
            return Ok(k == 1);
        }
        let v = tm().eval(c, &st.model) == 1;
        if self.all_fixed(st, c) {
            return Ok(v);
        }
        let nc = tm().not(c);
        let (yes, no) = if v { (c, nc) } else { (nc, c) };
        if st.pc.contains(&yes) {
            return Ok(v);
        }
        match self.feasible(st, no)? {
            None => Ok(v),
            Some(m) => {
                self.forks += 1;
                {
                    let f = st.frames.last().unwrap();
                    *self.fork_sites.entry((f.f.idx, f.bb, f.ip)).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.model = m;
                o.forks += 1;
                self.add_pc(&mut o, no);
                self.work.push(o);
                st.forks += 1;
                self.add_pc(st, yes);
                Ok(v)
            }
        }
    }
    /// is c implied by the path condition (no fork)
    pub fn must(&mut self, st: &State, c: T) -> R<bool> {
        if let Some(k) = tm().cst(c) {
            return Ok(k == 1);
        }
        if tm().eval(c, &st.model) != 1 {
            return Ok(false);
        }
        if self.all_fixed(st, c) {
            return Ok(true);
        }
        let nc = tm().not(c);
        Ok(self.feasible(st, nc)?.is_none())
    }
    /// one concrete value of v on this path (forks over all the others)
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(t) => {
                let t = *t;
                let k = tm().eval(t, &st.model);
                if !self.all_fixed(st, t) {
                    let f = st.frames.last().unwrap();
                    let key = (f.f.idx, f.bb, f.ip);
                    let n = self.conc_count.entry(key).or_insert(0);
                    *n += 1;
                    if *n > 20000 {
                        return eng("concretisation: too many values");
                    }
                    let kt = tm().konst(k, w);
                    let e = tm().eq(t, kt);
                    let r = self.choose(st, e)?;
                    debug_assert!(r);
                }
                Ok(k as u64)
            }
            _ => eng("conc of aggregate"),
        }
    }

    // ---------------------------------------------------------------- memory
    fn is_unique(&mut self, st: &mut State, t: T) -> Option<u64> {
        if self.all_fixed(st, t) {
            Some(tm().eval(t, &st.model) as u64)
        } else {
            None
        }
    }
    pub fn addr(&mut self, st: &mut State, a: &Val) -> R<u64> {
        self.conc(st, a, 64)
    }
    pub fn load(&mut self, st: &mut State, a: &Val, ty: &Ty) -> R<Val> {
        match a {
            Val::C(p) => load_ty(&st.mem, *p, ty),
            Val::S(t) => {
                if let Some(p) = self.is_unique(st, *t) {
                    return load_ty(&st.mem, p, ty);
                }
                let t = *t;
                if ty.is_scalar() {
                    let k = tm().eval(t, &st.model) as u64;
                    let n = ty.size();
                    if let Some(sz) = st.mem.size_of(k) {
                        if sz <= self.lim.table && sz >= n {
                            let base = k & !0xffff_ffff;
                            let lo = tm().konst(base as u128, 64);
                            let hi = tm().konst((base + sz - n) as u128, 64);
                            let c1 = tm().bin(Op::Ule, lo, t);
                            let c2 = tm().bin(Op::Ule, t, hi);
                            let c = tm().and(c1, c2);
                            if !self.choose(st, c)? {
                                return eng("symbolic address: model outside object");
                            }
                            // value as a chain over possible offsets
                            let (o, _) = st.mem.obj(base, 0)?;
                            let (kz, ko) = (tm().kz(t), tm().ko(t));
                            let mut offs = vec![];
                            for off in 0..=(sz - n) {
                                let ad = (base + off) as u128;
                                if ad & kz == 0 && ad & ko == ko {
                                    offs.push(off);
                                }
                            }
                            let w = ty.bits();
                            let vals: Vec<Val> = offs.iter().map(|&o2| read_obj(o, o2 as usize, w)).collect();
                            // group equal values
                            let mut acc: Option<T> = None;
                            for (i, v) in vals.iter().enumerate().rev() {
                                let vt = v.t(w);
                                acc = Some(match acc {
                                    None => vt,
                                    Some(r) => {
                                        if r == vt {
                                            r
                                        } else {
                                            let ad = tm().konst((base + offs[i]) as u128, 64);
                                            let e = tm().eq(t, ad);
                                            tm().ite(e, vt, r)
                                        }
                                    }
                                });
                            }
                            if let Some(r) = acc {
                                return Ok(tv(r));
                            }
                        }
                    }
                }
                let p = self.conc(st, a, 64)?;
                load_ty(&st.mem, p, ty)
            }
            _ => eng("load address"),
        }
    }
    pub fn bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = st.mem.obj(a, n)?;
        Ok((0..n as usize).map(|i| read_obj(o, off as usize + i, 8)).collect())
    }
    pub fn cstr(&mut self, st: &mut State, a: u64, n: u64) -> R<String> {
        let b = self.bytes(st, a, n)?;
        let b: Vec<u8> = b.iter().map(|v| v.as_c().map(|c| c as u8).unwrap_or(b'?')).collect();
        Ok(String::from_utf8(b).unwrap_or_else(|e| e.into_bytes().iter().map(|c| *c as char).collect()))
    }

    // ---------------------------------------------------------------- stepping
    fn step_many(&mut self, st: &mut State) -> R<()> {
        for _ in 0..4096 {
            self.step(st)?;
        }
        Ok(())
    }
    #[inline]
    fn get(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    fn set(st: &mut State, d: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let prev = fr.bb;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, m) in &b.phis {
                match m.get(&prev) {
                    Some(o) => tmp.push((*d, Self::get(fr, o))),
                    None => return eng("phi without predecessor"),
                }
            }
            for (d, v) in tmp {
                fr.regs[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        if st.steps > self.lim.max_steps {
            return Err(Stop::Violation("hang".into(), format!("no result after {} instructions", self.lim.max_steps)));
        }
        let fr: &Frame = st.frames.last().unwrap();
        let f = fr.f;
        let inst: &'static Inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        match inst {
            Inst::Bin(op, w, lanes, d, a, b) => {
                let (a, b) = (Self::get(fr, a), Self::get(fr, b));
                let v = if *lanes == 0 { bin(*op, *w, &a, &b) } else { lanewise(&a, &b, |x, y| bin(*op, *w, x, y)) };
                Self::set(st, *d, v);
            }
            Inst::FNeg(w, d, a) => {
                let a = Self::get(fr, a);
                let v = bin(Op::Xor, *w, &a, &konst(1u128 << (w - 1), *w));
                Self::set(st, *d, v);
            }
            Inst::ICmp(p, w, lanes, d, a, b) => {
                let (a, b) = (Self::get(fr, a), Self::get(fr, b));
                let v = if *lanes == 0 { icmp(*p, *w, &a, &b) } else { lanewise(&a, &b, |x, y| icmp(*p, *w, x, y)) };
                Self::set(st, *d, v);
            }
            Inst::FCmp(p, w, d, a, b) => {
                let (a, b) = (Self::get(fr, a), Self::get(fr, b));
                let v = fcmp(p, *w, &a, &b)?;
                Self::set(st, *d, v);
            }
            Inst::Cast(k, wf, wt, lanes, d, a) => {
                let a = Self::get(fr, a);
                let v = if *lanes == 0 { cast(*k, *wf, *wt, &a) } else { lanes1(&a, |x| cast(*k, *wf, *wt, x)) };
                Self::set(st, *d, v);
            }
            Inst::BitCast(t1, t2, d, a) => {
                let a = Self::get(fr, a);
                let v = bitcast(t1, t2, &a)?;
                Self::set(st, *d, v);
            }
            Inst::Select(d, lanes, w, c, a, b) => {
                let (c, a, b) = (Self::get(fr, c), Self::get(fr, a), Self::get(fr, b));
                let v = if *lanes == 0 {
                    match c.as_c() {
                        Some(k) => {
                            if k & 1 == 1 {
                                a
                            } else {
                                b
                            }
                        }
                        None => {
                            let ct = c.t(1);
                            if matches!(a, Val::A(_)) {
                                if self.choose(st, ct)? {
                                    a
                                } else {
                                    b
                                }
                            } else {
                                ite_w(ct, &a, &b, *w)
                            }
                        }
                    }
                } else {
                    let n = *lanes as usize;
                    Val::A(Rc::new(
                        (0..n)
                            .map(|i| match c.elt(i).as_c() {
                                Some(k) => {
                                    if k & 1 == 1 {
                                        a.elt(i).clone()
                                    } else {
                                        b.elt(i).clone()
                                    }
                                }
                                None => ite_w(c.elt(i).t(1), a.elt(i), b.elt(i), *w),
                            })
                            .collect(),
                    ))
                };
                Self::set(st, *d, v);
            }
            Inst::Gep(d, base, off, idx) => {
                let b = Self::get(fr, base);
                let mut acc = bin(Op::Add, 64, &b, &Val::C(*off as u64));
                for (o, w, scale) in idx {
                    let v = Self::get(fr, o);
                    let v = cast(CastK::SExt, *w, 64, &v);
                    let v = if *scale == 1 { v } else { bin(Op::Mul, 64, &v, &Val::C(*scale as u64)) };
                    acc = bin(Op::Add, 64, &acc, &v);
                }
                Self::set(st, *d, acc);
            }
            Inst::Load(d, ty, a) => {
                let a = Self::get(fr, a);
                let v = self.load(st, &a, ty)?;
                Self::set(st, *d, v);
            }
            Inst::Store(ty, v, a) => {
                let (v, a) = (Self::get(fr, v), Self::get(fr, a));
                let p = self.addr(st, &a)?;
                store_ty(&mut st.mem, p, ty, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            Inst::Alloca(d, size) => {
                let a = st.mem.alloc((*size).max(1));
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                Self::set(st, *d, Val::C(a));
            }
            Inst::Move(d, a) => {
                let v = Self::get(fr, a);
                Self::set(st, *d, v);
            }
            Inst::Nop => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            Inst::Br(b) => return self.goto(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = Self::get(fr, c);
                let t = match c {
                    Val::C(k) => k & 1 == 1,
                    Val::S(t) => self.choose(st, t)?,
                    _ => return eng("branch on aggregate"),
                };
                return self.goto(st, if t { *a } else { *b });
            }
            Inst::Switch(w, v, def, cases) => {
                let v = Self::get(fr, v);
                let target = match v.as_u128(*w) {
                    Some(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    None => {
                        let t = v.t(*w);
                        let k = tm().eval(t, &st.model);
                        let target = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        if !self.all_fixed(st, t) {
                            let mut cond = if target == *def { TM::TRUE } else { TM::FALSE };
                            for (ck, cl) in cases {
                                let kt = tm().konst(*ck, *w);
                                let e = tm().eq(t, kt);
                                if *cl == target {
                                    if target != *def {
                                        cond = tm().or(cond, e);
                                    }
                                } else if target == *def {
                                    let ne = tm().not(e);
                                    cond = tm().and(cond, ne);
                                }
                            }
                            self.choose(st, cond)?;
                        }
                        target
                    }
                };
                return self.goto(st, target);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(fr, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.free(*a)?;
                }
                if st.frames.is_empty() {
                    // keep a frame for reporting
                    st.frames.push(fr);
                    return Err(Stop::Done);
                }
                return self.ret_to(st, v);
            }
            Inst::Unreachable => return eng("unreachable executed"),
            Inst::Bad(s) => return eng(format!("unsupported: {}", s)),
            Inst::ExtractValue(d, a, ix) => {
                let mut v = Self::get(fr, a);
                for i in ix {
                    v = v.elt(*i as usize).clone();
                }
                Self::set(st, *d, v);
            }
            Inst::InsertValue(d, a, v, ix) => {
                let a = Self::get(fr, a);
                let v = Self::get(fr, v);
                let r = insert(&a, &v, ix);
                Self::set(st, *d, r);
            }
            Inst::ExtractElt(d, a, i) => {
                let (a, i) = (Self::get(fr, a), Self::get(fr, i));
                let k = self.conc(st, &i, 64)?;
                let v = a.elt(k as usize).clone();
                Self::set(st, *d, v);
            }
            Inst::InsertElt(d, a, v, i) => {
                let (a, v, i) = (Self::get(fr, a), Self::get(fr, v), Self::get(fr, i));
                let k = self.conc(st, &i, 64)?;
                let r = insert(&a, &v, &[k as u32]);
                Self::set(st, *d, r);
            }
            Inst::Shuffle(d, a, b, mask) => {
                let (a, b) = (Self::get(fr, a), Self::get(fr, b));
                let n = match &a {
                    Val::A(v) => v.len(),
                    _ => 0,
                };
                let r = mask
                    .iter()
                    .map(|&m| {
                        let m = m.max(0) as usize;
                        if m < n {
                            a.elt(m).clone()
                        } else {
                            b.elt(m - n).clone()
                        }
                    })
                    .collect();
                Self::set(st, *d, Val::A(Rc::new(r)));
            }
            Inst::AtomicRMW(op, w, d, a, v) => {
                let (a, v) = (Self::get(fr, a), Self::get(fr, v));
                let p = self.addr(st, &a)?;
                let old = st.mem.read(p, *w)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "umax" | "umin" => {
                        let c = icmp(Pred::Ult, *w, &old, &v);
                        let c = self.conc(st, &c, 1)?;
                        if (c == 1) == (op == "umax") {
                            v
                        } else {
                            old.clone()
                        }
                    }
                    _ => bin(binop(op).ok_or(Stop::Engine("atomicrmw".into()))?, *w, &old, &v),
                };
                st.mem.write(p, &new, *w)?;
                Self::set(st, *d, old);
            }
            Inst::CmpXchg(ty, d, a, c, n) => {
                let (a, c, n) = (Self::get(fr, a), Self::get(fr, c), Self::get(fr, n));
                let p = self.addr(st, &a)?;
                let w = ty.bits();
                let old = st.mem.read(p, w)?;
                let e = icmp(Pred::Eq, w, &old, &c);
                let k = self.conc(st, &e, 1)?;
                if k == 1 {
                    st.mem.write(p, &n, w)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(k)])));
            }
            Inst::Call(_, callee, args, ws, _) => {
                let av: Vec<Val> = args.iter().map(|o| Self::get(fr, o)).collect();
                let target = match callee {
                    Callee::Fn(i) => Ok(*i),
                    Callee::Ext(i) => Err(*i),
                    Callee::Ind(o) => {
                        let p = Self::get(fr, o);
                        let p = self.conc(st, &p, 64)?;
                        match self.m.fn_of_addr(p) {
                            Some(i) => {
                                if self.m.fns[i].range.is_some() {
                                    Ok(i)
                                } else {
                                    let n = self.m.fns[i].name.clone();
                                    let e = match self.m.ext_by_name.get(&n) {
                                        Some(&e) => e,
                                        None => {
                                            self.m.exts.push(n.clone());
                                            self.m.ext_by_name.insert(n, self.m.exts.len() - 1);
                                            self.m.exts.len() - 1
                                        }
                                    };
                                    Err(e)
                                }
                            }
                            None => return eng(format!("indirect call to 0x{:x}", p)),
                        }
                    }
                };
                let (target, av) = match target {
                    Err(e) if st.hash_mode != 0 => self.real_hash(st, e, av)?,
                    t => (t, av),
                };
                match target {
                    Ok(i) => {
                        let g = match self.m.get_fn(i) {
                            Ok(g) => g,
                            Err(e) => return eng(format!("parse: {}", e)),
                        };
                        self.used_fns.insert(i);
                        if st.frames.len() >= self.lim.max_depth {
                            return Err(Stop::Violation("stack".into(), format!("recursion deeper than {} frames", self.lim.max_depth)));
                        }
                        let mut regs = vec![Val::C(0); g.nregs as usize];
                        for (k, &p) in g.params.iter().enumerate() {
                            regs[p as usize] = av[k].clone();
                        }
                        if self.trace {
                            eprintln!("{}{}", " ".repeat(st.frames.len()), short(&g.name));
                        }
                        st.frames.push(Rc::new(Frame { f: g, bb: 0, ip: 0, regs, allocas: vec![] }));
                        if st.frames.len() > self.maxdepth_seen {
                            self.maxdepth_seen = st.frames.len();
                        }
                    }
                    Err(e) => {
                        let r = self.external(st, e, &av, ws)?;
                        return self.ret_to(st, r);
                    }
                }
            }
        }
        Ok(())
    }
    /// deliver a call's result to the frame on top, whose current instruction is the call
    fn ret_to(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let inst: &'static Inst = &fr.f.blocks[fr.bb as usize].insts[fr.ip as usize];
        if let Inst::Call(d, _, _, _, normal) = inst {
            if let Some(d) = d {
                fr.regs[*d as usize] = v.unwrap_or(Val::C(0));
            }
            match normal {
                Some(b) => return self.goto(st, *b),
                None => fr.ip += 1,
            }
        } else {
            return eng("return to a non-call");
        }
        Ok(())
    }
}

fn insert(a: &Val, v: &Val, ix: &[u32]) -> Val {
    match a {
        Val::A(x) => {
            let mut n = (**x).clone();
            let i = ix[0] as usize;
            n[i] = if ix.len() == 1 { v.clone() } else { insert(&n[i], v, &ix[1..]) };
            Val::A(Rc::new(n))
        }
        _ => panic!("insert into scalar"),
    }
}
pub fn bin(op: Op, w: u16, a: &Val, b: &Val) -> Val {
    if w <= 64 {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
            match op {
                Op::Add => return Val::C(x.wrapping_add(y) & m),
                Op::Sub => return Val::C(x.wrapping_sub(y) & m),
                Op::Mul => return Val::C(x.wrapping_mul(y) & m),
                Op::And => return Val::C(x & y),
                Op::Or => return Val::C(x | y),
                Op::Xor => return Val::C(x ^ y),
                _ => return Val::C(fold(op, w, x as u128, y as u128) as u64),
            }
        }
    }
    let (x, y) = (a.t(w), b.t(w));
    tv(tm().bin(op, x, y))
}
pub fn icmp(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let s = |v: u64| sx(v, w);
        return Val::C(match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => s(x) < s(y),
            Pred::Sle => s(x) <= s(y),
            Pred::Sgt => s(x) > s(y),
            Pred::Sge => s(x) >= s(y),
        } as u64);
    }
    let (x, y) = (a.t(w), b.t(w));
    let tm = tm();
    let r = match p {
        Pred::Eq => tm.eq(x, y),
        Pred::Ne => {
            let e = tm.eq(x, y);
            tm.not(e)
        }
        Pred::Ult => tm.bin(Op::Ult, x, y),
        Pred::Ule => tm.bin(Op::Ule, x, y),
        Pred::Ugt => tm.bin(Op::Ult, y, x),
        Pred::Uge => tm.bin(Op::Ule, y, x),
        Pred::Slt => tm.bin(Op::Slt, x, y),
        Pred::Sle => tm.bin(Op::Sle, x, y),
        Pred::Sgt => tm.bin(Op::Slt, y, x),
        Pred::Sge => tm.bin(Op::Sle, y, x),
    };
    tv(r)
}
fn fcmp(p: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
    let t = tm();
    let (x, y) = (a.t(w), b.t(w));
    let uno = t.bin(Op::FUno, x, y);
    let ord = t.not(uno);
    let base = |t: &mut TM, s: &str| -> R<T> {
        Ok(match s {
            "eq" => t.bin(Op::FEq, x, y),
            "lt" => t.bin(Op::FLt, x, y),
            "le" => t.bin(Op::FLe, x, y),
            "gt" => t.bin(Op::FLt, y, x),
            "ge" => t.bin(Op::FLe, y, x),
            "ne" => {
                let e = t.bin(Op::FEq, x, y);
                t.not(e)
            }
            _ => return eng("fcmp"),
        })
    };
    let r = match p {
        "ord" => ord,
        "uno" => uno,
        "true" => TM::TRUE,
        "false" => TM::FALSE,
        _ if p.starts_with('o') => {
            let c = base(t, &p[1..])?;
            t.and(c, ord)
        }
        _ => {
            let c = base(t, &p[1..])?;
            t.or(c, uno)
        }
    };
    Ok(tv(r))
}
pub fn cast(k: CastK, wf: u16, wt: u16, a: &Val) -> Val {
    if wf <= 64 && wt <= 64 {
        if let Val::C(x) = a {
            let x = *x;
            let m = if wt == 64 { !0u64 } else { (1u64 << wt) - 1 };
            match k {
                CastK::Trunc => return Val::C(x & m),
                CastK::ZExt | CastK::Same => return Val::C(x),
                CastK::SExt => return Val::C(sx(x, wf) as u64 & m),
                _ => {}
            }
        }
    }
    let x = a.t(wf);
    let t = tm();
    let r = match k {
        CastK::Trunc => t.extract(x, 0, wt),
        CastK::ZExt => t.zext(x, wt),
        CastK::SExt => t.sext(x, wt),
        CastK::Same => x,
        CastK::SIToFP => t.conv(Op::SIToFP, x, wt),
        CastK::UIToFP => t.conv(Op::UIToFP, x, wt),
        CastK::FPToSI => t.conv(Op::FPToSISat, x, wt),
        CastK::FPToUI => t.conv(Op::FPToUISat, x, wt),
        CastK::FPExt => t.conv(Op::FPExt, x, wt),
        CastK::FPTrunc => t.conv(Op::FPTrunc, x, wt),
    };
    tv(r)
}
pub fn ite_w(c: T, a: &Val, b: &Val, w: u16) -> Val {
    let (x, y) = (a.t(w), b.t(w));
    tv(tm().ite(c, x, y))
}
fn lanewise(a: &Val, b: &Val, f: impl Fn(&Val, &Val) -> Val) -> Val {
    match (a, b) {
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
        _ => panic!("lanes"),
    }
}
fn lanes1(a: &Val, f: impl Fn(&Val) -> Val) -> Val {
    match a {
        Val::A(x) => Val::A(Rc::new(x.iter().map(f).collect())),
        _ => panic!("lanes"),
    }
}
fn flat(ty: &Ty) -> R<(u16, usize)> {
    match ty {
        Ty::Vec(n, e) => Ok((e.bits(), *n as usize)),
        t if t.is_scalar() => Ok((t.bits(), 1)),
        _ => eng("bitcast type"),
    }
}
pub fn bitcast(t1: &Ty, t2: &Ty, a: &Val) -> R<Val> {
    let (w1, n1) = flat(t1)?;
    let (w2, n2) = flat(t2)?;
    let total = w1 as usize * n1;
    if total > 128 {
        return eng("bitcast wider than 128");
    }
    let t = tm();
    let whole = if matches!(t1, Ty::Vec(..)) {
        let mut acc: Option<T> = None;
        for i in 0..n1 {
            let x = a.elt(i).t(w1);
            acc = Some(match acc {
                None => x,
                Some(l) => t.concat(x, l),
            });
        }
        acc.unwrap()
    } else {
        a.t(w1)
    };
    if matches!(t2, Ty::Vec(..)) {
        Ok(Val::A(Rc::new((0..n2).map(|i| tv(tm().extract(whole, i as u16 * w2, w2))).collect())))
    } else {
        Ok(tv(whole))
    }
}
pub fn load_ty(mem: &Mem, p: u64, ty: &Ty) -> R<Val> {
    match ty {
        Ty::Struct(f, _) => {
            let mut v = vec![];
            for (i, t) in f.iter().enumerate() {
                v.push(load_ty(mem, p + ty.field_off(i), t)?);
            }
            Ok(Val::A(Rc::new(v)))
        }
        Ty::Vec(n, e) if e.bits() % 8 != 0 => {
            // sub-byte elements are bit packed
            let whole = Ty::Int(*n as u16 * e.bits());
            let w = mem.read(p, whole.bits())?;
            bitcast(&whole, ty, &w)
        }
        Ty::Arr(..) | Ty::Vec(..) => {
            let n = n_of(ty);
            let e = elem_of(ty);
            let mut v = vec![];
            for i in 0..n {
                v.push(load_ty(mem, p + i * e.size(), e)?);
            }
            Ok(Val::A(Rc::new(v)))
        }
        _ => Ok(mem.read(p, ty.bits())?),
    }
}
fn n_of(t: &Ty) -> u64 {
    match t {
        Ty::Arr(n, _) => *n,
        Ty::Vec(n, _) => *n as u64,
        _ => 0,
    }
}
fn elem_of(t: &Ty) -> &'static Ty {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => e,
        _ => unreachable!(),
    }
}
pub fn store_ty(mem: &mut Mem, p: u64, ty: &Ty, v: &Val) -> Result<(), MErr> {
    match ty {
        Ty::Struct(f, _) => {
            for (i, t) in f.iter().enumerate() {
                store_ty(mem, p + ty.field_off(i), t, v.elt(i))?;
            }
            Ok(())
        }
        Ty::Arr(n, e) => {
            for i in 0..*n {
                store_ty(mem, p + i * e.size(), e, v.elt(i as usize))?;
            }
            Ok(())
        }
        Ty::Vec(n, e) if e.bits() % 8 != 0 => {
            let whole = Ty::Int(*n as u16 * e.bits());
            match bitcast(ty, &whole, v) {
                Ok(x) => mem.write(p, &x, whole.bits()),
                Err(_) => panic!("packed vector store"),
            }
        }
        Ty::Vec(n, e) => {
            for i in 0..*n as u64 {
                store_ty(mem, p + i * e.size(), e, v.elt(i as usize))?;
            }
            Ok(())
        }
        _ => mem.write(p, v, ty.bits()),
    }
}
/// a readable tail of a v0-mangled name
pub fn short(n: &str) -> String {
    // collect identifiers <len><name>
    let b = n.as_bytes();
    let mut i = 0;
    let mut ids: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut l = 0usize;
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if l > 0 && l < 60 && i + l <= b.len() {
                let id = &n[i..i + l];
                if id.bytes().next().map(|c| c.is_ascii_alphabetic() || c == b'_').unwrap_or(false) {
                    ids.push(id.to_string());
                    i += l;
                    continue;
                }
            }
            i = s + 1;
        } else {
            i += 1;
        }
    }
    if ids.is_empty() {
        return n.to_string();
    }
    ids.join("::")
}
