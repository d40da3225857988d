//! Runtime values: a concrete scalar of at most 64 bits, a term, or an aggregate.
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(T),
    A(Rc<Vec<Val>>),
}
static mut TMG: *mut TM = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn tm() -> &'static mut TM {
    unsafe {
        if TMG.is_null() {
            TMG = Box::into_raw(Box::new(TM::new()));
        }
        &mut *TMG
    }
}
pub fn konst(v: u128, w: u16) -> Val {
    if w <= 64 {
        Val::C((v & mask(w)) as u64)
    } else {
        Val::S(tm().konst(v, w))
    }
}
/// term -> value (constants of at most 64 bits become concrete)
pub fn tv(t: T) -> Val {
    let n = &tm().nodes[t as usize];
    if n.op == Op::Const && n.w <= 64 {
        Val::C(n.k as u64)
    } else {
        Val::S(t)
    }
}
impl Val {
    #[inline]
    pub fn as_c(&self) -> Option<u64> {
        match self {
            Val::C(v) => Some(*v),
            _ => None,
        }
    }
    pub fn as_u128(&self, _w: u16) -> Option<u128> {
        match self {
            Val::C(v) => Some(*v as u128),
            Val::S(t) => tm().cst(*t),
            _ => None,
        }
    }
    pub fn t(&self, w: u16) -> T {
        match self {
            Val::C(v) => tm().konst(*v as u128, w),
            Val::S(t) => {
                debug_assert_eq!(tm().w(*t), w);
                *t
            }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn elt(&self, i: usize) -> &Val {
        match self {
            Val::A(v) => &v[i],
            _ => panic!("not an aggregate"),
        }
    }
}
