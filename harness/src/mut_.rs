//! Damaged files: never a panic, never accepted when something is missing.
use crate::bld::*;
use crate::dig;
use crate::doc::*;
use crate::enc::*;
use crate::full::{self, V};
use crate::{entry, vp};
use onenote_parser::Parser;
use std::path::Path;

fn parse_bytes(b: &[u8]) -> Result<onenote_parser::section::Section, onenote_parser::errors::Error> {
    // these files have a few thousand bytes
    vp::alloc_limit(1 << 20);
    Parser::new().parse_section_buffer(b, Path::new("a.one"))
}
/// Sample stores: 0 a page with everything; 1 the same with wide forms; 2 a revision chain with header and fragments.
fn sample(k: u64, v: &V) -> Vec<u8> {
    match k {
        0 => full::full(v).encode(),
        1 => {
            set_forms(4, 17, true, true, true);
            let mut s = full::full(v);
            s.wide = true;
            s.encode()
        }
        _ => crate::store::rich(1, 2, &v.img).encode(),
    }
}
fn part(n: usize, k: u64, of: u64) -> usize {
    let m = (n as u64 + of - 1 - k) / of;
    (k + of * vp::choose(m)) as usize
}

// Any single damaged byte. `a`: sample * 1000 + part of 16.
entry!(m_byte, |a| {
    let mut b = sample(a / 1000, &V::fixed());
    let i = part(b.len(), a % 1000, 16);
    b[i] = vp::u8();
    let r = parse_bytes(&b);
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});
// Any damaged word of `w` bytes. `a`: w * 100000 + sample * 1000 + part of 64.
entry!(m_word, |a| {
    let mut b = sample(a / 1000 % 100, &V::fixed());
    let w = (a / 100_000) as usize;
    let i = part(b.len() - w, a % 1000, 64);
    let d = vp::vec(w);
    b[i..i + w].copy_from_slice(&d);
    let r = parse_bytes(&b);
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});
// Cut at any byte. `a`: sample * 1000 + part of 16
entry!(m_cut, |a| {
    let b = sample(a / 1000, &V::any());
    let i = part(b.len(), a % 1000, 16);
    must_fail(parse_bytes(&b[..i]), "truncated file accepted");
});
// The file is followed by anything.
entry!(m_tail, |n| {
    let v = V::any();
    let a = sample(0, &v);
    let mut b = a.clone();
    b.extend(vp::vec(n as usize));
    let a = must(parse_bytes(&a), "document rejected");
    match parse_bytes(&b) {
        Ok(b) => dig::same(&dig::of(&a), &dig::of(&b), "bytes after the end"),
        Err(_) => (),
    }
    vp::cover("ok");
});
// The properties of any object cut at any byte. `k`: every 8th object from the k-th
entry!(m_cutobj, |k| {
    let v = V::any();
    let mut l = full::objs(&v);
    let j = part(l.len(), k, 8);
    let s = l[j].stream();
    let i = vp::choose(s.len() as u64) as usize;
    l[j].raw = Some(s[..i].to_vec());
    must_fail(parse_bytes(&full::of(l, &v).encode()), "truncated object accepted");
});
// Any word of `w` bytes of the properties of any object. `a`: w * 100 + k: every 32nd object from the k-th
entry!(m_obj, |a| {
    let v = V::fixed();
    let mut l = full::objs(&v);
    let j = part(l.len(), a % 100, 32);
    let mut s = l[j].stream();
    let w = (a / 100) as usize;
    if s.len() < w {
        return vp::cover("done");
    }
    let i = vp::choose((s.len() - w + 1) as u64) as usize;
    let d = vp::vec(w);
    s[i..i + w].copy_from_slice(&d);
    l[j].raw = Some(s);
    let r = parse_bytes(&full::of(l, &v).encode());
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});
// An object whose properties are `n` bytes of anything. `a`: n * 100 + k-th object
entry!(m_any, |a| {
    let v = V::fixed();
    let mut l = full::objs(&v);
    let j = (a % 100) as usize % l.len();
    l[j].raw = Some(vp::vec((a / 100) as usize));
    let r = parse_bytes(&full::of(l, &v).encode());
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});

// A data element of kind `k` whose content is `n` bytes of anything. `a`: kind * 1000 + n
entry!(m_elem, |a| {
    let v = V::fixed();
    let mut s = full::full(&v);
    let mut w = W::new();
    // header of a data element, its identifier, no serial number, its kind
    w.h16(1, true, 0).ex(&ex(0x66, 1)).serial_nil().compact(a / 1000);
    w.raw(&vp::vec((a % 1000) as usize));
    s.extra = w.0;
    let r = parse_bytes(&s.encode());
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});

/// A value in the property data of an object: its type and where it starts (in `vals`).
fn walk(ids: &[u32], b: &[u8], p: &mut usize, out: &mut Vec<(u32, usize)>) {
    let u32_at = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
    for id in ids {
        let t = id >> 26 & 31;
        out.push((t, *p));
        match t {
            3 => *p += 1,
            4 => *p += 2,
            5 | 9 | 0xB | 0xD => *p += 4,
            6 => *p += 8,
            7 => *p += 4 + u32_at(*p) as usize,
            0x10 | 0x11 => {
                let mut n = 1;
                if t == 0x10 {
                    n = u32_at(*p);
                    *p += 8;
                }
                for _ in 0..n {
                    let k = b[*p] as usize | (b[*p + 1] as usize) << 8;
                    let ids: Vec<u32> = (0..k).map(|k| u32_at(*p + 2 + 4 * k)).collect();
                    *p += 2 + 4 * k;
                    walk(&ids, b, p, out);
                }
            }
            _ => (),
        }
    }
}
fn values(o: &Obj) -> Vec<(u32, usize)> {
    let i = &o.ps.ids.0;
    let ids: Vec<u32> = (0..i.len() / 4).map(|k| u32::from_le_bytes([i[4 * k], i[4 * k + 1], i[4 * k + 2], i[4 * k + 3]])).collect();
    let mut v = vec![];
    let mut p = 0;
    walk(&ids, &o.ps.vals.0, &mut p, &mut v);
    vp::check(p == o.ps.vals.0.len(), "harness: property data");
    v
}
fn numbers(o: &Obj) -> Vec<(usize, usize)> {
    let n = |t| match t {
        3 => 1,
        4 => 2,
        5 | 7 | 9 | 0xB | 0xD | 0x10 => 4,
        6 => 8,
        _ => 0,
    };
    values(o).into_iter().map(|(t, p)| (p, n(t))).filter(|x| x.1 > 0).collect()
}
// Any number, count or length in the properties of any object is any value. `k`: every 32nd object from the k-th
entry!(m_field, |k| {
    let v = V::fixed();
    let mut l = full::objs(&v);
    let j = part(l.len(), k, 32);
    let f = numbers(&l[j]);
    if f.is_empty() {
        return vp::cover("done");
    }
    let (p, n) = f[vp::choose(f.len() as u64) as usize];
    let d = vp::vec(n);
    l[j].ps.vals.0[p..p + n].copy_from_slice(&d);
    let r = parse_bytes(&full::of(l, &v).encode());
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});
// Any two of them.
entry!(m_pair, |k| {
    let v = V::fixed();
    let mut l = full::objs(&v);
    let j = part(l.len(), k, 32);
    let f = numbers(&l[j]);
    if f.len() < 2 {
        return vp::cover("done");
    }
    let a = 1 + vp::choose(f.len() as u64 - 1) as usize;
    let b = vp::choose(a as u64) as usize;
    for i in [a, b] {
        let (p, n) = f[i];
        let d = vp::vec(n);
        l[j].ps.vals.0[p..p + n].copy_from_slice(&d);
    }
    let r = parse_bytes(&full::of(l, &v).encode());
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});
// Any vector or string in the properties of any object has another length, the first four and last two bytes being anything.
entry!(m_vec, |k| {
    const L: [usize; 18] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33];
    let v = V::fixed();
    let mut l = full::objs(&v);
    let j = part(l.len(), k, 32);
    let f: Vec<usize> = values(&l[j]).into_iter().filter(|(t, _)| *t == 7).map(|(_, p)| p).collect();
    if f.is_empty() {
        return vp::cover("done");
    }
    let p = f[vp::choose(f.len() as u64) as usize];
    let n = L[vp::choose(18) as usize];
    let b = &mut l[j].ps.vals.0;
    let old = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
    let mut d: Vec<u8> = (0..n).map(|i| if i % 2 == 0 { 0x41 } else { 0 }).collect();
    for i in 0..n {
        if i < 4 || i + 2 >= n {
            d[i] = vp::u8();
        }
    }
    b.splice(p..p + 4 + old, (n as u32).to_le_bytes().into_iter().chain(d));
    let r = parse_bytes(&full::of(l, &v).encode());
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});

fn contents() -> Vec<u8> {
    use crate::nb::{item, toc_of, units};
    let root = item(1, None, None, &[2, 3, 4]).u32(0x14001CBE, 0x00ff_8040);
    toc_of(vec![
        root,
        item(2, Some(2), Some(&units("a.one")), &[]),
        item(3, Some(1), Some(&units("g^M")), &[]),
        item(4, None, None, &[5]),
        item(5, Some(7), Some(&units("\u{e4}\u{1F600}.one")), &[]),
    ])
}
fn notebook(b: &[u8]) -> Result<onenote_parser::notebook::Notebook, onenote_parser::errors::Error> {
    vp::fs_file("nb/a.one", &crate::nb::sect("A"));
    vp::fs_file("nb/toc.onetoc2", b);
    vp::alloc_limit(1 << 20);
    crate::nb::open("nb/toc.onetoc2")
}
// Any damaged byte of a table of contents. `k`: part of 16
entry!(m_toc, |k| {
    let mut b = contents();
    let i = part(b.len(), k, 16);
    b[i] = vp::u8();
    let r = notebook(&b);
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});
// A table of contents cut at any byte. `k`: part of 16
entry!(m_cuttoc, |k| {
    let b = contents();
    let i = part(b.len(), k, 16);
    must_fail(notebook(&b[..i]), "truncated table of contents accepted");
});
