//! Equivalent encodings of one and the same store, and how files are recognised.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::store::*;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::{Parser, errors::Error};
use onenote_parser::section::Section;
use std::path::Path;

fn go(b: &[u8]) -> Result<Section, Error> {
    Parser::new().parse_section_buffer(b, Path::new("a.one"))
}

// Every identifier and compact integer of a store in every width that can hold it.
entry!(q_forms, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let c = [0, 1, 2, 3, 4, 5, 6, 7, 9][vp::choose(9) as usize];
    let f = [0, 10, 17, 32][vp::choose(4) as usize];
    s.wide = vp::flag();
    set_forms(c, f, vp::flag(), false, vp::flag());
    is_rich(&must(parse(&s), "other encoding of a store rejected"), h, l, &x, "other encoding");
    vp::cover("ok");
});
// Optional parts: serial numbers, metadata.
entry!(q_optional, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    s.wide = vp::flag();
    let f = vp::choose(8);
    for g in &mut s.groups {
        g.meta = if f == 7 { None } else { Some(f) };
    }
    for c in &mut s.cells {
        c.serial = Some((vp::bytes(), vp::u64()));
    }
    for (i, c) in s.revmaps.iter_mut().enumerate() {
        c.serial = Some(([0xA0 + i as u8; 16], vp::u64()));
    }
    set_forms(0, 0, vp::flag(), vp::flag(), false);
    let r = parse(&s);
    if f == 5 || f == 6 {
        return must_fail(r, "undefined change frequency accepted");
    }
    is_rich(&must(r, "optional parts rejected"), h, l, &x, "optional parts");
    vp::cover("ok");
});
// Change frequencies of every width and value.
entry!(q_freq, |k| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    s.groups.truncate(3);
    let v = vp::u64();
    if k < 9 {
        vp::assume(v >> (7 * k) == 0);
    }
    let mut e = s.elems();
    let g = s.groups[1].clone();
    let mut w = W::new();
    s.group(&mut w, &Group { meta: Some(0), ..g });
    // replace the first frequency
    let mut m = W::new();
    m.h32(ty::METADATA, false, 0).compact(0);
    let at = (0..w.0.len() - 5).find(|i| w.0[*i..*i + 5] == m.0[..]).unwrap();
    let mut n = W::new();
    n.compact_k(v, k as u8);
    w.0.splice(at + 4..at + 5, n.0);
    let i = e.iter().position(|e| e.starts_with(&w.0[..19])).unwrap();
    e[i] = w.0;
    let r = parse_of(&s, &e);
    if v > 4 {
        return must_fail(r, "undefined change frequency accepted");
    }
    is_rich(&must(r, "change frequency rejected"), h, l, &x, "change frequency");
    vp::cover("ok");
});

fn find(b: &[u8], w: &[u8]) -> usize {
    let n = b.len();
    for i in 0..n - w.len() + 1 {
        if b[i..i + w.len()] == *w {
            return i;
        }
    }
    vp::fail("harness: pattern not found")
}
// A compact integer of any width and value is exactly the number written: `a` = place * 10 + width.
entry!(q_value, |a| {
    let k = (a % 10) as u8;
    let v = vp::u64();
    if k < 9 {
        vp::assume(v >> (7 * k as u64) == 0);
    }
    let mut n = W::new();
    n.compact_k(v, k);
    let x = [0xC3, 0xC7, 0xCB];
    let s = rich(1, 2, &x);
    let mut b = s.encode();
    let (at, want) = match a / 10 {
        0 => {
            // the length of a blob
            (find(&b, &[7, 0xC3, 0xC7, 0xCB]), 3)
        }
        1 => {
            // the kind of a data element (a blob)
            let mut w = W::new();
            w.ex(&ex(0x60, 1)).serial_nil().compact(0xA);
            (find(&b, &w.0) + w.0.len() - 1, 0xA)
        }
        2 | 3 => {
            // the partition of a declaration
            let p = if a / 10 == 2 { 4 } else { 1 };
            let mut w = W::new();
            w.ex(&po(0, 11)).compact(p).compact(0).compact(0).compact(0);
            (find(&b, &w.0) + w.0.len() - 4, p)
        }
        4 => {
            // the length of an object's type
            let mut w = W::new();
            w.compact(0).compact(0).compact(4).u32(J_IMAGE);
            (find(&b, &w.0) + 2, 4)
        }
        5 => {
            // the number of references of an object (the image: one)
            let mut w = W::new();
            w.compact(1).ex(&po(0, 12)).compact(0);
            (find(&b, &w.0), 1)
        }
        6 => {
            // the number of cell references of an object (the series: one)
            let mut w = W::new();
            w.compact(0).compact(1).cell(&page_cell(0));
            (find(&b, &w.0) + 1, 1)
        }
        _ => {
            // the partition of a blob declaration
            let mut w = W::new();
            w.ex(&po(0, 12)).ex(&ex(0x60, 1)).compact(2).compact(0).compact(0);
            (find(&b, &w.0) + w.0.len() - 3, 2)
        }
    };
    b.splice(at..at + 1, n.0);
    let r = go(&b);
    if v == want {
        is_rich(&must(r, "compact integer rejected"), 1, 2, &x, "compact integer");
        vp::cover("ok");
    } else {
        // another number does not happen to give the same document
        if let Ok(s) = r {
            let i = page1(&s).contents();
            let same = i.len() == 1 && i[0].image().is_some() && i[0].image().unwrap().data() == Some(&x[..]);
            vp::check(!same, "compact integer of another value");
        }
        vp::cover("other");
    }
});
// Lengths that need 1, 2, 3 bytes, at the borders.
entry!(q_long, |a| {
    let n = [1usize, 127, 128, 129, 16383, 16384, 16385, 40000, 65535, 65536, 70000][a as usize];
    let mut d = vec![0xEE; n];
    for i in [0, n / 2, n - 1] {
        d[i] = vp::u8();
    }
    let s = rich(1, 2, &d);
    set_forms(0, 0, true, false, false);
    is_rich(&must(parse(&s), "long blob rejected"), 1, 2, &d, "long blob");
    vp::cover("ok");
});

// One object identifier, written in form `a / 10` where it is defined and in form `a % 10` where it is used.
entry!(q_exguid, |a| {
    const F: [(u8, u32); 4] = [(5, 5), (10, 10), (17, 17), (32, 32)];
    let (f, fb) = F[(a / 10) as usize];
    let (u, ub) = F[(a % 10) as usize];
    let gd = vp::bytes::<16>();
    let lim = fb.min(ub);
    let n = vp::u32();
    vp::assume(lim == 32 || n >> lim == 0);
    // a second object whose identifier differs
    let g2 = if vp::flag() { gd } else { vp::bytes() };
    let n2 = vp::u32();
    vp::assume(lim == 32 || n2 >> lim == 0);
    vp::assume(g2 != gd || n2 != n);
    for g in [&gd, &g2] {
        // not one of the other objects
        vp::assume(g[0] != 0x40);
    }
    let nil = |g: &G, n: u32| *g == [0; 16] && n == 0;
    let id = |form| Ex { g: gd, n, form };
    let id2 = |form| Ex { g: g2, n: n2, form };
    vp::assume(!nil(&gd, n) && !nil(&g2, n2));
    let im = |id: Ex, h: u32| Obj::new(id, J_IMAGE).u32(0x14001C1C, h);
    let r = parse(&one_page(
        page_node(0, &[id(u), id2(u), id(u)]),
        vec![im(id2(f), 2), im(id(f), 1)],
    ));
    let s = must(r, "extended identifier rejected");
    let c = page1(&s).contents();
    vp::check(c.len() == 3, "contents");
    for (i, w) in [1u32, 2, 1].iter().enumerate() {
        let i = some(c[i].image(), "image");
        vp::check(eqf(i.layout_max_height(), Some(*w)), "identifier resolves to another object");
    }
    vp::cover("ok");
});
// Identifiers of the store's parts in mixed forms.
entry!(q_parts, |a| {
    const F: [u8; 4] = [5, 10, 17, 32];
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let n = vp::u32();
    vp::assume(n < 32);
    let gd = vp::bytes::<16>();
    vp::assume(gd[0] >= 0xC0);
    let d = Ex { g: gd, n, form: F[vp::choose(4) as usize] };
    let u = Ex { g: gd, n, form: F[vp::choose(4) as usize] };
    match a {
        0 => {
            s.manifests[2].0 = d;
            s.cells[2].mapping = u;
        }
        1 => {
            s.manifests[2].1 = u;
            s.revmaps[2].rev = d;
        }
        2 => {
            s.revmaps[2].manifest = u;
            s.revs[2].id = d;
        }
        3 => {
            s.revs[2].groups[0] = u;
            s.groups[2].id = d;
        }
        4 => {
            s.blobs[0].0 = d;
            let o = s.groups[2].objs.iter_mut().find(|o| o.blob.is_some()).unwrap();
            o.blob = Some(u);
        }
        5 => {
            s.roots[1].1.1 = u;
            s.cells[1].cell.1 = d;
        }
        6 => {
            let o = s.groups[1].objs.iter_mut().find(|o| !o.osids.is_empty()).unwrap();
            o.osids[0].to.1 = u;
            s.cells[2].cell.1 = d;
        }
        7 => {
            s.revs[2].roots[1].1 = u;
            s.groups[2].objs[1].id = d;
        }
        _ => {
            // the context of a cell
            let o = s.groups[1].objs.iter_mut().find(|o| !o.osids.is_empty()).unwrap();
            o.osids[0].to.0 = u;
            s.cells[2].cell.0 = d;
        }
    }
    is_rich(&must(parse(&s), "identifier form rejected"), h, l, &x, "identifier form");
    vp::cover("ok");
});

// Fragments anywhere between the data elements.
entry!(q_fragment, |n| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let s = rich(h, l, &x);
    let mut e = s.elems();
    let d = vp::vec(n as usize);
    let mut w = W::new();
    set_forms(0, 0, vp::flag(), false, false);
    s.fragment(&mut w, &ex(0x68, 1), &ex(0x60, 1), 100, 7, &d);
    let at = vp::choose(e.len() as u64 + 1) as usize;
    e.insert(at, w.0);
    is_rich(&must(parse_of(&s, &e), "fragment rejected"), h, l, &x, "fragment");
    vp::cover("ok");
});
// Excluded objects in a group: their contents are stored elsewhere, so the file is not complete.
entry!(q_excluded, |_| {
    let s = rich(1, 2, &[3, 4, 5]);
    let mut w = W::new();
    let g = Group { id: s.groups[2].id, objs: vec![], meta: None };
    s.group(&mut w, &g);
    let mut full = W::new();
    s.group(&mut full, &s.groups[2]);
    // declarations end and data end of the full group
    let mut de = W::new();
    de.end8(ty::GROUP_DECL as u8).h16(ty::GROUP_DATA as u16, false, 0);
    let at = find(&full.0, &de.0);
    let mut decl = W::new();
    decl.h16(ty::GROUP_DECL_OBJECT as u16, false, 0).ex(&ex(0x69, 1)).compact(1).compact(5).compact(1).compact(1);
    let mut data = W::new();
    data.h16(ty::GROUP_DATA_EXCLUDED as u16, false, 0).compact(1).ex(&ex(0x69, 2)).compact(1);
    data.cell(&page_cell(9)).compact(vp::choose(3) * 1000);
    let mut b = full.0.clone();
    if vp::flag() {
        let n = b.len();
        b.splice(n - 2..n - 2, data.0);
        b.splice(at..at, decl.0);
    } else {
        b.splice(at + 3..at + 3, data.0);
        let st = w.0.len() - 5;
        b.splice(st..st, decl.0);
    }
    let mut e = s.elems();
    let i = e.iter().position(|e| *e == full.0).unwrap();
    e[i] = b;
    must_fail(parse_of(&s, &e), "excluded object accepted");
});

/// A revision-store file that wraps the package after `pad` extra bytes behind its header.
fn revision_file(v: [u32; 4], mid: &[u8], stp: u64, cb: u32, pad: usize, inner: &Store) -> Vec<u8> {
    let mut w = W::new();
    w.raw(&g(ONE_TYPE)).raw(&[0x21; 16]).raw(&[0; 16]).raw(&g(FMT_REVISION));
    for x in v {
        w.u32(x);
    }
    // fields nothing depends on: 8 + 8 + 4 + 4 + 8 + 8 + 4 + 4 + 16 + 4 + 12 bytes
    w.raw(&mid[..80]);
    w.u64(stp).u32(cb);
    for _ in 0..pad {
        w.u8(0xDD);
    }
    w.raw(&inner.encode());
    w.0
}
const RHDR: u64 = 64 + 16 + 80 + 12;

// Revision-store files: version numbers.
entry!(s_versions, |k| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    s.file_format = g(FMT_REVISION);
    s.legacy_version = [0x21; 16];
    let mut v = [0x2A, 0x1B, 0x1B, 0x2A];
    v[k as usize] = vp::u32();
    let mid = vp::vec(80);
    let r = go(&revision_file(v, &mid, RHDR, 0, 0, &s));
    if v[k as usize] != 0x2A && v[k as usize] != 0x1B {
        return must_fail(r, "unknown file version accepted");
    }
    is_rich(&must(r, "revision-store file rejected"), h, l, &x, "revision-store file");
    vp::cover("ok");
});
// Revision-store files: where the transaction log ends.
entry!(s_log, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let legacy = vp::flag();
    if legacy {
        s.file_format = g(FMT_REVISION);
        s.legacy_version = [0x21; 16];
    }
    let pad = 5usize;
    let want = RHDR + pad as u64;
    let cb = vp::choose(want + 1) as u32;
    let stp = want - cb as u64;
    let r = go(&revision_file([0x2A; 4], &[9; 80], stp, cb, pad, &s));
    is_rich(&must(r, "revision-store file rejected"), h, l, &x, "revision-store file");
    vp::cover("ok");
});
// ... and where it must not end: within the header, next to the right place, or past the file.
entry!(s_badlog, |a| {
    let s = rich(1, 2, &[3]);
    let good = RHDR + 5;
    let (stp, cb) = match a {
        0 => {
            let t = [0, 1, 16, 64, 144, RHDR - 1, RHDR, good - 1, good + 1, good + 2, good + 16, good + 64, good + 100];
            let to = t[vp::choose(t.len() as u64) as usize];
            let cb = vp::u32();
            vp::assume(cb as u64 <= to);
            (to - cb as u64, cb)
        }
        1 => {
            let stp = vp::u64();
            vp::assume(stp > 1 << 20);
            (stp, vp::u32())
        }
        _ => {
            let cb = vp::u32();
            vp::assume(cb > 1 << 20);
            (vp::u64(), cb)
        }
    };
    let r = go(&revision_file([0x2A; 4], &[9; 80], stp, cb, 5, &s));
    must_fail(r, "transaction log with a wrong end accepted");
});
// All forms of file decode to the same section, whatever the identifiers nothing depends on.
entry!(s_layouts, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    s.file_type = vp::bytes();
    let b = match vp::choose(4) {
        0 => {
            s.legacy_version = vp::bytes();
            s.encode()
        }
        1 => {
            s.file_format = g(FMT_REVISION);
            s.legacy_version = vp::bytes();
            vp::assume(s.legacy_version != [0; 16]);
            s.encode()
        }
        2 => {
            s.legacy_version = vp::bytes();
            s.file_format = vp::bytes();
            revision_file([0x1B; 4], &[9; 80], 0, RHDR as u32, 0, &s)
        }
        _ => {
            let mut b = s.encode();
            // anything after the package
            b.extend_from_slice(&vp::bytes::<2>());
            b
        }
    };
    is_rich(&must(go(&b), "file layout rejected"), h, l, &x, "file layout");
    vp::cover("ok");
});
// Any file format identifier.
entry!(s_format, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    s.file_format = vp::bytes();
    s.legacy_version = vp::bytes();
    let nil = s.legacy_version == [0; 16];
    let f = s.file_format;
    let r = go(&s.encode());
    if f == g(FMT_PACKAGE) || (f == g(FMT_REVISION) && !nil) {
        is_rich(&must(r, "file format rejected"), h, l, &x, "file format");
        vp::cover("ok");
    } else {
        must_fail(r, "unknown file format accepted");
    }
});
// Any schema identifier; `a` 0: both places, 1: only the storage manifest's, 2: only the packaging's.
entry!(s_schema, |a| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let ok = s.schema;
    let sc: G = vp::bytes();
    let mut e = s.elems();
    s.schema = sc;
    if a != 2 {
        e = s.elems();
    }
    if a == 1 {
        s.schema = ok;
    }
    let r = go(&s.encode_of(&e));
    if a == 2 {
        // the packaging's own copy carries no meaning by itself
        if let Ok(r) = r {
            is_rich(&r, h, l, &x, "schema");
        }
        return vp::cover("ok");
    }
    if sc == ok {
        is_rich(&must(r, "section schema rejected"), h, l, &x, "schema");
        vp::cover("ok");
    } else {
        must_fail(r, "file with another schema accepted as a section");
    }
});
// A table of contents is not a section.
entry!(s_toc, |_| {
    let mut s = Store::with_header(TOC_SCHEMA);
    s.roots.push((exg(DATA_ROOT, 2), root_cell()));
    if vp::flag() {
        s.add_space(root_cell(), 0x20, &[(CONTENT, so(1))], vec![Obj::new(so(1), J_TOC)]);
    } else {
        s.add_space(root_cell(), 0x20, &[(CONTENT, so(1)), (META, so(2))], vec![section_node(&[]), section_meta()]);
    }
    must_fail(go(&s.encode()), "table of contents accepted as a section");
});
// Padding, and the roots a store needs.
entry!(s_padding, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let s = rich(h, l, &x);
    let mut b = s.encode();
    let p = vp::u32();
    let q = vp::u8();
    b[64..68].copy_from_slice(&p.to_le_bytes());
    // u32 0, header 4, index id 17, schema 16, package header 2
    let at = 64 + 4 + 4 + 17 + 16 + 2;
    vp::check(b[at] == 0 && b[at - 2] as u32 | (b[at - 1] as u32) << 8 == 0x15 << 3 | 4, "harness: padding byte");
    b[at] = q;
    let r = go(&b);
    if p != 0 || q != 0 {
        return must_fail(r, "bad padding accepted");
    }
    is_rich(&must(r, "file rejected"), h, l, &x, "file");
    vp::cover("ok");
});
