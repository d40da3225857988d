//! Building objects property by property while varying which properties are present.
//!
//! mode 0: every property present; mode 1: only mandatory ones; mode 2+k: all but property k;
//! mode 2+N+k: all present, property k stored with another wire type;
//! mode 2+2N: any two missing; mode 3+2N: only the mandatory ones and any one or two others;
//! mode 4+2N: all present, in another order.
#![allow(dead_code)]
use crate::enc::*;
use crate::{skip, vp};
use onenote_parser::property::common::{Color, ColorRef};
use onenote_parser::section::Section;
use onenote_parser::{Parser, errors::Error};
use std::fmt::Write;
use std::path::Path;

pub struct B {
    pub o: Obj,
    mode: u64,
    n: u64,
    i: u64,
    /// the file has to be rejected
    pub bad: bool,
    /// where an unknown property goes
    at: u64,
    /// the missing ones of modes 2+2N and 3+2N
    mask: u64,
    /// mode 4+2N: how the properties are ordered, and where each begins
    turn: u64,
    marks: Vec<[usize; 5]>,
}
/// A text told apart from the others by its first letter, followed by two symbolic ASCII characters.
pub fn text(k: u64) -> &'static str {
    let c = vp::bytes::<2>();
    vp::assume(c[0] >= 1 && c[0] < 0x80 && c[1] >= 1 && c[1] < 0x80);
    let v = vec![b'a' + k as u8, c[0], c[1]];
    Box::leak(unsafe { String::from_utf8_unchecked(v) }.into_boxed_str())
}

impl B {
    /// `n` properties will be added. `single` restricts to mode 0.
    pub fn new(o: Obj, n: u64, mode: u64) -> B {
        B { o, mode, n, i: 0, bad: false, at: u64::MAX, mask: 0, turn: n, marks: vec![] }
    }
    pub fn pick(o: Obj, n: u64) -> B {
        if skip::kind() != 0 {
            let mut b = B::new(o, n, skip::mode());
            b.at = vp::choose(n + 1);
            return b;
        }
        let m = vp::choose(if n > 1 { 5 + 2 * n } else { 2 + 2 * n });
        let mut b = B::new(o, n, m);
        if m == 2 + 2 * n {
            // any two missing
            let k = vp::choose(n - 1);
            b.mask = 1 << k | 2 << (k + vp::choose(n - 1 - k));
        } else if m == 3 + 2 * n {
            // only the mandatory ones and any one or two others
            let k = vp::choose(n);
            b.mask = !(1 << k | 1 << (k + vp::choose(n - k)));
        } else if m == 4 + 2 * n {
            b.turn = vp::choose(n);
        }
        b
    }
    fn extra(&mut self) {
        if self.at == self.i {
            self.at = u64::MAX;
            self.bad |= skip::add(&mut self.o, skip::kind() as u64);
        }
    }
    /// 0 present, 1 absent, 2 wrong type
    fn st(&mut self, req: bool) -> u8 {
        self.extra();
        let m = self.mark();
        self.marks.push(m);
        let k = self.i;
        self.i += 1;
        let s = match self.mode {
            0 => 0,
            1 => !req as u8,
            m if m < 2 + self.n => (m - 2 == k) as u8,
            m if m < 2 + 2 * self.n => 2 * (m - 2 - self.n == k) as u8,
            m if m == 2 + 2 * self.n => (self.mask >> k & 1) as u8,
            m if m == 3 + 2 * self.n => (!req && self.mask >> k & 1 == 1) as u8,
            _ => 0,
        };
        if s == 2 || (s == 1 && req) {
            self.bad = true;
        }
        s
    }
    /// The property with any other value type; references designate a suitable object.
    fn wrong(&mut self, id: u32, to: &[Ex]) {
        let key = id & 0x03ff_ffff;
        let mut t = 1 + vp::choose(9) as u32;
        if t >= id >> 26 & 0x1f {
            t = if t == 9 { 0x11 } else { t + 1 };
        }
        let id = key | t << 26;
        let to = to.first().copied().unwrap_or(self.o.id);
        match t {
            1 => self.o.ps.id(id),
            2 => self.o.ps.b(id, true),
            3 => self.o.ps.u8(id, 7),
            4 => self.o.ps.u16(id, 7),
            5 => self.o.ps.u32(id, 7),
            6 => self.o.ps.u64(id, 7),
            7 => self.o.ps.v(id, &[b'x', 0, 0, 0]),
            8 => {
                self.o.addref(to);
                self.o.ps.id(id)
            }
            9 => {
                self.o.addref(to);
                self.o.ps.u32(id, 1)
            }
            _ => {
                // a set without properties
                self.o.ps.vals.u16(0);
                self.o.ps.id(id)
            }
        };
    }
    fn go<X>(&mut self, id: u32, req: bool, f: impl FnOnce(&mut PS) -> X) -> Option<X> {
        match self.st(req) {
            0 => Some(f(&mut self.o.ps)),
            1 => None,
            _ => {
                self.wrong(id, &[]);
                None
            }
        }
    }
    pub fn u32(&mut self, id: u32) -> Option<u32> {
        self.go(id, false, |p| {
            let v = vp::u32();
            p.u32(id, v);
            v
        })
    }
    pub fn u32_req(&mut self, id: u32) -> Option<u32> {
        self.go(id, true, |p| {
            let v = vp::u32();
            p.u32(id, v);
            v
        })
    }
    pub fn u16(&mut self, id: u32, req: bool) -> Option<u16> {
        self.go(id, req, |p| {
            let v = vp::u16();
            p.u16(id, v);
            v
        })
    }
    pub fn u8(&mut self, id: u32, req: bool) -> Option<u8> {
        self.go(id, req, |p| {
            let v = vp::u8();
            p.u8(id, v);
            v
        })
    }
    pub fn u64(&mut self, id: u32, req: bool) -> Option<u64> {
        self.go(id, req, |p| {
            let v = vp::u64();
            p.u64(id, v);
            v
        })
    }
    pub fn b(&mut self, id: u32) -> Option<bool> {
        self.go(id, false, |p| {
            let v = vp::bool();
            p.b(id, v);
            v
        })
    }
    pub fn s(&mut self, id: u32, req: bool) -> Option<&'static str> {
        let k = self.i;
        self.go(id, req, |p| {
            let t = text(k);
            p.ascii(id, t);
            t
        })
    }
    pub fn v(&mut self, id: u32, req: bool, d: &[u8]) -> bool {
        self.go(id, req, |p| {
            p.v(id, d);
        })
        .is_some()
    }
    pub fn oid(&mut self, id: u32, req: bool, to: Ex) -> bool {
        let all = &[to];
        match self.st(req) {
            0 => {
                self.o.ps.id(id);
                self.o.addref(to);
                true
            }
            1 => false,
            _ => {
                self.wrong(id, all);
                false
            }
        }
    }
    pub fn oidv(&mut self, id: u32, req: bool, to: &[Ex]) -> bool {
        let all = to;
        match self.st(req) {
            0 => {
                self.o.ps.u32(id, to.len() as u32);
                for t in to {
                    self.o.addref(*t);
                }
                true
            }
            1 => false,
            _ => {
                self.wrong(id, all);
                false
            }
        }
    }
    /// a [u8 count, 3 bytes, f32...] list
    pub fn floats(&mut self, id: u32, req: bool, n: usize) -> Option<Vec<u32>> {
        self.go(id, req, |p| {
            let mut d = vec![n as u8, 0, 0, 0];
            let mut r = vec![];
            for _ in 0..n {
                let v = vp::u32();
                d.extend_from_slice(&v.to_le_bytes());
                r.push(v);
            }
            p.v(id, &d);
            r
        })
    }
    pub fn done(mut self) -> (Obj, bool) {
        self.extra();
        if self.i != self.n {
            vp::fail("harness: property count");
        }
        if self.turn < self.n {
            self.reorder();
        }
        (self.o, self.bad)
    }
    fn mark(&self) -> [usize; 5] {
        let o = &self.o;
        [o.ps.ids.0.len(), o.ps.vals.0.len(), o.oids.len(), o.osids.len(), o.ctxs.len()]
    }
    /// Puts the properties in another order: the last first (turn 0), or starting with property `turn`.
    fn reorder(&mut self) {
        let end = self.mark();
        self.marks.push(end);
        let o = &mut self.o;
        let old = o.clone();
        let first = self.marks[0];
        o.ps.ids.0.truncate(first[0]);
        o.ps.vals.0.truncate(first[1]);
        o.oids.truncate(first[2]);
        o.osids.truncate(first[3]);
        o.ctxs.truncate(first[4]);
        let n = self.n as usize;
        let t = self.turn as usize;
        for i in 0..n {
            let k = if t == 0 { n - 1 - i } else { (t + i) % n };
            let (a, b) = (self.marks[k], self.marks[k + 1]);
            o.ps.ids.raw(&old.ps.ids.0[a[0]..b[0]]);
            o.ps.vals.raw(&old.ps.vals.0[a[1]..b[1]]);
            o.oids.extend_from_slice(&old.oids[a[2]..b[2]]);
            o.osids.extend_from_slice(&old.osids[a[3]..b[3]]);
            o.ctxs.extend_from_slice(&old.ctxs[a[4]..b[4]]);
        }
    }
}

pub fn parse(s: &Store) -> Result<Section, Error> {
    let b = s.encode();
    Parser::new().parse_section_buffer(&b, Path::new("a.one"))
}
/// The file must be rejected.
pub fn must_fail<T, E>(r: Result<T, E>, id: &str) {
    if r.is_ok() {
        vp::fail(id);
    }
    vp::cover("rejected");
}
pub fn must<T, E>(r: Result<T, E>, id: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => vp::fail(id),
    }
}

pub fn eqf(a: Option<f32>, b: Option<u32>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.to_bits() == b,
        (None, None) => true,
        _ => false,
    }
}
pub fn eqfs(a: &[f32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i].to_bits() == b[i];
    }
    r
}
pub fn eqo<T: PartialEq>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}

/// Text form of a unit-like value, for types that cannot be named from outside the crate.
pub struct Txt(pub [u8; 64], pub usize);
impl Write for Txt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.1 < 64 {
                self.0[self.1] = c;
                self.1 += 1;
            }
        }
        Ok(())
    }
}
pub fn is(v: &dyn std::fmt::Debug, want: &str) -> bool {
    let mut t = Txt([0; 64], 0);
    let _ = write!(t, "{:?}", v);
    &t.0[..t.1] == want.as_bytes()
}

/// Restrict `v` to the values a colour reference may have: 0x00rrggbb-style or automatic.
pub fn colref_ok(v: Option<u32>) -> bool {
    match v {
        None => true,
        Some(v) => v >> 24 == 0 || v >> 24 == 0xff,
    }
}
pub fn eqcolref(a: Option<ColorRef>, v: Option<u32>) -> bool {
    match (a, v) {
        (None, None) => true,
        (Some(ColorRef::Auto), Some(v)) => v >> 24 == 0xff,
        (Some(ColorRef::Manual { r, g, b }), Some(v)) => {
            v >> 24 == 0 && r == v as u8 && g == (v >> 8) as u8 && b == (v >> 16) as u8
        }
        _ => false,
    }
}
pub fn eqcol(a: Option<Color>, v: Option<u32>) -> bool {
    match (a, v) {
        (None, None) => true,
        (Some(c), Some(v)) => {
            c.r() == v as u8
                && c.g() == (v >> 8) as u8
                && c.b() == (v >> 16) as u8
                && c.alpha() == 255 - (v >> 24) as u8
        }
        _ => false,
    }
}
/// `a` is the public layout alignment value (its type is not exported).
#[macro_export]
macro_rules! eqalign {
    ($a:expr, $v:expr) => {{
        let v: Option<u32> = $v;
        match ($a, v) {
            (None, None) => true,
            (None, Some(v)) => v >> 31 == 1,
            (Some(a), Some(v)) => {
                let h = ["Unknown", "Left", "Center", "Right", "BiDiNormal", "BiDiReverse"];
                let mut hi = 9;
                for i in 0..6 {
                    if $crate::bld::is(&a.alignment_horizontal(), h[i]) {
                        hi = i as u32;
                    }
                }
                v >> 31 == 0
                    && hi == v & 7
                    && $crate::bld::is(&a.alignment_margin_horizontal(), "Left") == (v >> 3 & 1 == 1)
                    && $crate::bld::is(&a.alignment_margin_horizontal(), "Right") == (v >> 3 & 1 == 0)
                    && $crate::bld::is(&a.alignment_vertical(), "Top") == (v >> 16 & 1 == 1)
                    && $crate::bld::is(&a.alignment_vertical(), "Bottom") == (v >> 16 & 1 == 0)
                    && $crate::bld::is(&a.alignment_margin_vertical(), "Top") == (v >> 19 & 1 == 1)
                    && $crate::bld::is(&a.alignment_margin_vertical(), "Bottom") == (v >> 19 & 1 == 0)
            }
            _ => false,
        }
    }};
}
/// A layout alignment word is acceptable: undefined, or a defined horizontal alignment.
pub fn align_ok(v: Option<u32>) -> bool {
    match v {
        None => true,
        Some(v) => v >> 31 == 1 || v & 7 <= 5,
    }
}
impl B {
    /// A layout alignment; `k` selects one of a few distinct values (all values: see `enums`).
    pub fn al(&mut self, id: u32, k: usize) -> Option<u32> {
        let v = [0x0001_0001u32, 0x0008_000A, 0x0009_000B, 0x0000_0004][k];
        self.go(id, false, |p| {
            p.u32(id, v);
            v
        })
    }
    /// A manual colour reference.
    pub fn cref(&mut self, id: u32) -> Option<u32> {
        self.go(id, false, |p| {
            let v = vp::u32() & 0x00ff_ffff;
            p.u32(id, v);
            v
        })
    }
    /// A 32-bit optional property with a fixed valid value.
    pub fn fix32(&mut self, id: u32, v: u32) -> bool {
        self.go(id, false, |p| {
            p.u32(id, v);
        })
        .is_some()
    }
    /// A 16-bit property with a fixed valid value.
    pub fn small16(&mut self, id: u32, req: bool, v: u16) -> bool {
        self.go(id, req, |p| {
            p.u16(id, v);
        })
        .is_some()
    }
    /// A UTF-16 unit that is a character.
    pub fn char16(&mut self, id: u32) -> Option<u16> {
        self.go(id, false, |p| {
            let v = vp::u16();
            vp::assume(v >> 11 != 0x1b);
            p.u16(id, v);
            v
        })
    }
    /// One of the given values (symbolic choice).
    pub fn small8(&mut self, id: u32, max: u8) -> Option<u8> {
        self.go(id, false, |p| {
            let v = vp::u8();
            vp::assume(v <= max);
            p.u8(id, v);
            v
        })
    }
}
