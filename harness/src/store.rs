//! The store: revisions, cells, manifests, mappings and the order of data elements.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::{Parser, errors::Error};
use onenote_parser::page::Page;
use onenote_parser::section::Section;
use std::path::Path;

pub fn parse_of(s: &Store, elems: &[Vec<u8>]) -> Result<Section, Error> {
    Parser::new().parse_section_buffer(&s.encode_of(elems), Path::new("a.one"))
}
/// The standard objects of page `i` with the given height and level.
pub fn page_hl(i: u8, h: u32, l: u32) -> Vec<Obj> {
    let mut v = page_objs(i, page_node(i, &[]).u32(0x14001C02, h), vec![]);
    v[1] = page_meta(po(i, 2)).u32(0x14001DFF, l);
    v
}
pub fn is_page(p: &Page, h: u32, l: u32, id: &str) {
    vp::check(p.height().is_some(), id);
    vp::check(p.height().unwrap().to_bits() == h, id);
    vp::check(p.level() == l as i32, id);
}
pub fn sec1() -> Store {
    section(section_meta(), vec![series(so(3), &[page_cell(0)])])
}
/// A revision holding one group of objects; the identifiers derive from `seed` and `k`.
pub fn add_rev(s: &mut Store, seed: u8, k: u32, base: Ex, roots: &[(u32, Ex)], objs: Vec<Obj>, mapped: bool) -> Ex {
    let manifest = ex(seed, 0x200 + k);
    let rev = if mapped { ex(seed, 0x100 + k) } else { manifest };
    let group = ex(seed, 0x300 + k);
    if mapped {
        s.revmaps.push(RevMap { rev, manifest, serial: None });
    }
    s.revs.push(Rev { id: manifest, rev_id: rev, base, roots: roots.to_vec(), groups: vec![group] });
    s.groups.push(Group { id: group, objs, meta: None });
    rev
}

// `n` revisions of a page (0 is the newest): each may hold the page node, may declare either root, and roots of
// different revisions name different objects. A revision outside the chain holds everything.
entry!(r_chain, |a| {
    let n = (a % 10) as usize;
    let mapped = a < 10;
    let mut s = sec1();
    let seed = 0x30;
    let cell = page_cell(0);
    let mut h = [0u32; 4];
    let mut l = [0u32; 4];
    let mut pn = [false; 4];
    let mut rm = [false; 4];
    let mut rc = [false; 4];
    for i in 0..n {
        h[i] = vp::u32();
        l[i] = vp::u32();
        pn[i] = vp::flag();
        rm[i] = vp::flag();
        rc[i] = vp::flag();
    }
    // the chain is written from the oldest to the newest
    let mut base = NIL;
    for i in (0..n).rev() {
        let mut objs = vec![];
        let mut roots = vec![];
        if rc[i] {
            // every revision's content root names its own manifest object, all of which name the page node
            roots.push((CONTENT, po(0, 60 + i as u32)));
            objs.push(page_manifest(po(0, 60 + i as u32), po(0, 3)));
        }
        if rm[i] {
            roots.push((META, po(0, 50 + i as u32)));
        }
        // the metadata objects all live in the oldest revision
        if i == n - 1 {
            for k in 0..n {
                objs.push(page_meta(po(0, 50 + k as u32)).u32(0x14001DFF, l[k]));
            }
        }
        if pn[i] {
            objs.push(page_node(0, &[]).u32(0x14001C02, h[i]));
        }
        base = add_rev(&mut s, seed, i as u32, base, &roots, objs, mapped);
    }
    s.cells.push(CellMap { cell, mapping: ex(seed, 0x10), serial: None });
    s.manifests.push((ex(seed, 0x10), base));
    // newer than, and based on, the newest of the chain; but nothing refers to it
    let mut o = page_hl(0, vp::u32(), vp::u32());
    o.push(page_meta(po(0, 50)).u32(0x14001DFF, vp::u32()));
    o.push(page_manifest(po(0, 60), po(0, 3)));
    add_rev(&mut s, seed, 9, base, &page_roots(0), o, mapped);
    let first = |f: &[bool; 4]| (0..n).find(|i| f[*i]);
    let r = parse(&s);
    match (first(&pn), first(&rm), first(&rc)) {
        (Some(p), Some(m), Some(_)) => {
            let s = must(r, "revision chain rejected");
            is_page(page1(&s), h[p], l[m], "not the newest revision");
            vp::cover("ok");
        }
        _ => must_fail(r, "page without root or page object accepted"),
    }
});

// Which manifest a content root names matters too: each revision's root leads to its own page node.
entry!(r_roots, |a| {
    let n = a as usize;
    let mut s = sec1();
    let seed = 0x30;
    let mut h = [0u32; 4];
    let mut rc = [false; 4];
    let mut base = NIL;
    for i in (0..n).rev() {
        h[i] = vp::u32();
        rc[i] = i == n - 1 || vp::flag();
        let mut objs = vec![
            page_manifest(po(0, 60 + i as u32), po(0, 70 + i as u32)),
            Obj::new(po(0, 70 + i as u32), J_PAGE).oidv(0x24001C20, &[]).u32(0x14001C02, h[i]),
        ];
        let mut roots = vec![];
        if i == n - 1 {
            objs.push(page_meta(po(0, 2)));
            roots.push((META, po(0, 2)));
        }
        if rc[i] {
            roots.push((CONTENT, po(0, 60 + i as u32)));
        }
        base = add_rev(&mut s, seed, i as u32, base, &roots, objs, vp::flag());
    }
    s.cells.push(CellMap { cell: page_cell(0), mapping: ex(seed, 0x10), serial: None });
    s.manifests.push((ex(seed, 0x10), base));
    let p = (0..n).find(|i| rc[*i]).unwrap();
    let s = must(parse(&s), "revision chain rejected");
    vp::check(page1(&s).height().unwrap().to_bits() == h[p], "content root of an old revision used");
    vp::cover("ok");
});

// Two or three pages (`a % 10`) with revisions of their own on top of one or two (`a / 10`) that all share; whatever the
// order of the cells, no page sees another one's newer objects, roots or data.
entry!(r_shared, |a| {
    let (n, common) = (a as usize % 10, a as usize / 10);
    let cells: Vec<Cell> = (0..n as u8).map(page_cell).collect();
    let mut s = section(section_meta(), vec![series(so(3), &cells)]);
    struct R {
        h: Option<u32>,
        l: Option<u32>,
        x: Option<u8>,
    }
    let mut make = |seed: u8, k: u32, base: Ex, all: bool, f: [bool; 3]| -> (Ex, R) {
        let r = R { h: f[0].then(vp::u32), l: f[1].then(vp::u32), x: f[2].then(vp::u8) };
        let mut objs = vec![];
        let mut roots = vec![];
        if let Some(h) = r.h {
            objs.push(page_node(0, &[po(0, 11)]).u32(0x14001C02, h));
        }
        if let Some(l) = r.l {
            // another object is the root
            roots.push((META, ex(seed, 0x500 + k)));
            objs.push(page_meta(ex(seed, 0x500 + k)).u32(0x14001DFF, l));
        }
        if let Some(x) = r.x {
            let b = ex(0x60, seed as u32 * 16 + k);
            objs.push(Obj::new(po(0, 12), J_PICTURE).with_blob(b));
            s.blobs.push((b, vec![x]));
        }
        if all {
            objs.push(image_of(po(0, 11), po(0, 12)));
            objs.push(page_manifest(po(0, 1), po(0, 3)));
            roots.push((CONTENT, po(0, 1)));
        }
        (add_rev(&mut s, seed, k, base, &roots, objs, true), r)
    };
    let flags = || [vp::flag(), vp::flag(), vp::flag()];
    let (mut base, r) = make(0x30, 0, NIL, true, [true; 3]);
    let mut shared = vec![r];
    for k in 1..common {
        let (b, r) = make(0x30, k as u32, base, false, flags());
        base = b;
        shared.insert(0, r);
    }
    let mut tops = vec![];
    let mut own: Vec<Option<R>> = vec![];
    for i in 0..n {
        // the shared revision itself, or one on top of it
        if vp::flag() {
            let (b, r) = make(0x40 + i as u8, 0, base, false, flags());
            tops.push(b);
            own.push(Some(r));
        } else {
            tops.push(base);
            own.push(None);
        }
    }
    let back = vp::flag();
    for j in 0..n {
        let i = if back { n - 1 - j } else { j };
        let m = ex(0x70 + i as u8, 0x10);
        s.cells.push(CellMap { cell: cells[i], mapping: m, serial: None });
        s.manifests.push((m, tops[i]));
    }
    let s = must(parse(&s), "pages with a common revision rejected");
    let p = s.page_series()[0].pages();
    vp::check(p.len() == n, "page count");
    for i in 0..n {
        let chain: Vec<&R> = own[i].iter().chain(shared.iter()).collect();
        let h = chain.iter().find_map(|r| r.h).unwrap();
        let l = chain.iter().find_map(|r| r.l).unwrap();
        let x = chain.iter().find_map(|r| r.x).unwrap();
        is_page(&p[i], h, l, "page with a common revision");
        vp::check(p[i].contents().len() == 1, "content of a page with a common revision");
        vp::check(some(p[i].contents()[0].image(), "image").data() == Some(&[x][..]), "data of a page with a common revision");
    }
    vp::cover("ok");
});

// An object that changed kind, references or blob between two revisions is the new one altogether.
entry!(r_replace, |_| {
    let mut s = sec1();
    let seed = 0x30;
    let (a, b) = (vp::u32(), vp::u32());
    let x = [vp::u8(), vp::u8(), vp::u8()];
    s.blobs.push((ex(0x60, 1), x[..2].to_vec()));
    s.blobs.push((ex(0x60, 2), x.to_vec()));
    // old: page content is outline 10; new: page content is image 11 whose picture changed
    let mut old = page_objs(0, page_node(0, &[po(0, 10)]).u32(0x14001C02, a), vec![
        outline0(po(0, 10), &[]),
        image_of(po(0, 11), po(0, 12)),
        Obj::new(po(0, 12), J_PICTURE).with_blob(ex(0x60, 1)),
    ]);
    old[1] = page_meta(po(0, 2)).u32(0x14001DFF, 1);
    let r0 = add_rev(&mut s, seed, 0, NIL, &page_roots(0), old, true);
    let new = vec![
        page_node(0, &[po(0, 11)]).u32(0x14001C02, b),
        Obj::new(po(0, 12), J_PICTURE).with_blob(ex(0x60, 2)),
        // a former outline is an image now
        image_of(po(0, 10), po(0, 12)),
    ];
    let both = vp::flag();
    let mut new = new;
    if both {
        new[0] = page_node(0, &[po(0, 11), po(0, 10)]).u32(0x14001C02, b);
    }
    let r1 = add_rev(&mut s, seed, 1, r0, &[], new, true);
    s.cells.push(CellMap { cell: page_cell(0), mapping: ex(seed, 0x10), serial: None });
    s.manifests.push((ex(seed, 0x10), r1));
    let s = must(parse(&s), "replaced objects rejected");
    let p = page1(&s);
    vp::check(p.height().unwrap().to_bits() == b, "replaced page node");
    vp::check(p.level() == 1, "kept metadata");
    vp::check(p.contents().len() == 1 + both as usize, "replaced page content");
    for c in p.contents() {
        let i = some(c.image(), "replaced content is not the image");
        vp::check(i.data() == Some(&x[..]), "replaced picture data");
    }
    vp::cover("ok");
});

pub fn image_of(id: Ex, pic: Ex) -> Obj {
    Obj::new(id, J_IMAGE).u32(0x14001D7A, 1).oid(0x20001C3F, pic)
}

// Base revisions: `a` revisions, each with any of them (or none) as its base; the page uses the first.
entry!(r_cyclic, |a| {
    let n = a as u32;
    let mut s = sec1();
    let seed = 0x30;
    let mut b = vec![];
    for k in 0..n {
        let c = vp::choose(n as u64 + 1) as u32;
        b.push(c);
        let base = if c == n { NIL } else { ex(seed, 0x100 + c) };
        let mut o = page_hl(0, 100 + k, 7);
        if k == 0 {
            o.remove(2);
        }
        add_rev(&mut s, seed, k, base, &page_roots(0), o, true);
    }
    s.cells.push(CellMap { cell: page_cell(0), mapping: ex(seed, 0x10), serial: None });
    s.manifests.push((ex(seed, 0x10), ex(seed, 0x100)));
    let mut seen = 0u32;
    let mut at = 0;
    while at != n && seen >> at & 1 == 0 {
        seen |= 1 << at;
        at = b[at as usize];
    }
    let r = parse(&s);
    if at != n {
        return must_fail(r, "cycle of base revisions accepted");
    }
    if b[0] == n {
        return must_fail(r, "page without page node accepted");
    }
    let s = must(r, "chain of base revisions rejected");
    is_page(page1(&s), 100 + b[0], 7, "base revision");
    vp::cover("ok");
});

pub fn rich(h: u32, l: u32, x: &[u8]) -> Store {
    let mut s = sec1();
    let mut v = page_objs(0, page_node(0, &[po(0, 11)]).u32(0x14001C02, h), vec![
        image_of(po(0, 11), po(0, 12)),
        Obj::new(po(0, 12), J_PICTURE).with_blob(ex(0x60, 1)),
    ]);
    v[1] = page_meta(po(0, 2)).u32(0x14001DFF, l);
    s.add_space(page_cell(0), 0x30, &page_roots(0), v);
    s.blobs.push((ex(0x60, 1), x.to_vec()));
    s
}
pub fn is_rich(s: &Section, h: u32, l: u32, x: &[u8], id: &str) {
    let p = page1(s);
    is_page(p, h, l, id);
    vp::check(p.contents().len() == 1, id);
    vp::check(some(p.contents()[0].image(), id).data() == Some(x), id);
}

// Any data element may stand anywhere.
entry!(r_order, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let s = rich(h, l, &x);
    let mut e = s.elems();
    let n = e.len() as u64;
    let i = vp::choose(n) as usize;
    let j = vp::choose(n) as usize;
    let m = e.remove(i);
    e.insert(j, m);
    if vp::flag() {
        e.reverse();
    }
    let s = must(parse_of(&s, &e), "reordered data elements rejected");
    is_rich(&s, h, l, &x, "reordered data elements");
    vp::cover("ok");
});

// Every data element is needed.
entry!(r_missing, |_| {
    let x = vp::bytes::<3>();
    let s = rich(1, 2, &x);
    let mut e = s.elems();
    let i = vp::choose(e.len() as u64) as usize;
    e.remove(i);
    must_fail(parse_of(&s, &e), "file without one of its data elements accepted");
});

// Every mapping, root and group reference is needed.
entry!(r_unmapped, |_| {
    let mut s = rich(1, 2, &[3]);
    let n = [s.roots.len(), s.cells.len(), s.revmaps.len(), 3, 2, 2];
    let k = vp::choose(n.len() as u64) as usize;
    let i = vp::choose(n[k] as u64) as usize;
    match k {
        0 => {
            s.roots.remove(i);
        }
        1 => {
            s.cells.remove(i);
        }
        2 => {
            s.revmaps.remove(i);
        }
        3 => s.revs[i].groups = vec![],
        4 => {
            s.revs[1].roots.remove(i);
        }
        _ => {
            s.revs[2].roots.remove(i);
        }
    }
    must_fail(parse(&s), "file without one of its mappings accepted");
});

// How a cell leads to its revision manifest.
pub fn reroute(s: &mut Store, k: usize, way: u64) {
    let m = s.cells[k].mapping;
    let rev = s.manifests.iter().position(|x| x.0.g == m.g).unwrap();
    let rid = s.manifests[rev].1;
    let rm = s.revmaps.iter().position(|x| x.rev.g == rid.g).unwrap();
    let man = s.revmaps[rm].manifest;
    match way {
        0 => (),
        1 => {
            // the cell manifest names the revision manifest itself
            s.manifests[rev].1 = man;
            s.revmaps.remove(rm);
        }
        2 => {
            // the cell mapping is a revision mapping
            s.manifests.remove(rev);
            s.revmaps[rm].rev = m;
        }
        3 => {
            // the cell mapping names the revision manifest
            s.manifests.remove(rev);
            s.revmaps.remove(rm);
            s.cells[k].mapping = man;
        }
        _ => {
            // by serial number
            let mut g = vp::bytes::<16>();
            vp::assume(g[0] >= 0xC0);
            let n = vp::u64();
            if way == 5 {
                // nothing but a number
                g = [0; 16];
                vp::assume(n != 0);
            }
            let n2 = vp::u64();
            vp::assume(n2 != n);
            s.manifests.remove(rev);
            s.revmaps[rm].rev = ex(m.g[0], 0x777);
            s.revmaps[rm].serial = Some((g, n));
            s.cells[k].serial = Some((g, n));
            // decoys: the same GUID with another number; the same number with another GUID
            let mut g2 = g;
            g2[15] ^= 1;
            let d = [
                RevMap { rev: ex(m.g[0], 0x778), manifest: ex(m.g[0], 0x779), serial: Some((g, n2)) },
                RevMap { rev: ex(m.g[0], 0x77a), manifest: ex(m.g[0], 0x779), serial: Some((g2, n)) },
            ];
            for d in d {
                s.revmaps.insert(0, d);
            }
        }
    }
}
entry!(r_resolve, |k| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let k = k as usize;
    reroute(&mut s, k, vp::choose(6));
    reroute(&mut s, (k + 1) % 3, vp::choose(4));
    let s = must(parse(&s), "cell does not resolve");
    is_rich(&s, h, l, &x, "cell resolution");
    vp::cover("ok");
});

// A serial number that is not there, or a null one, does not select a revision.
entry!(r_badserial, |k| {
    let x = vp::bytes::<3>();
    let mut s = rich(1, 2, &x);
    let k = k as usize;
    let m = s.cells[k].mapping;
    let i = s.manifests.iter().position(|x| x.0.g == m.g).unwrap();
    s.manifests.remove(i);
    if vp::flag() {
        s.cells[k].serial = Some((vp::bytes(), 1 + (vp::u64() >> 1)));
    }
    must_fail(parse(&s), "cell without cell manifest accepted");
});

// Mappings without a target are skipped; cells that nothing refers to do no harm.
entry!(r_unused, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let pos = vp::choose(2) as usize * s.cells.len();
    match vp::choose(4) {
        0 => s.cells.insert(pos, CellMap { cell: page_cell(7), mapping: NIL, serial: None }),
        1 => {
            // a cell manifest without revision: an empty object space
            s.cells.insert(pos, CellMap { cell: page_cell(7), mapping: ex(0x66, 1), serial: None });
            s.manifests.insert(0, (ex(0x66, 1), NIL));
        }
        2 => s.add_space(page_cell(7), 0x66, &page_roots(7), page_hl(7, vp::u32(), vp::u32())),
        _ => {
            // a space in another context
            s.add_space(Cell(ex(0x21, 1), page_cell(0).1), 0x66, &page_roots(7), page_hl(7, vp::u32(), vp::u32()))
        }
    }
    let s = must(parse(&s), "unused cell rejected");
    is_rich(&s, h, l, &x, "unused cell");
    vp::cover("ok");
});

// Pages are separate although all of them use the same identifiers inside, also those of the section itself.
entry!(r_spaces, |n| {
    let n = n as u8;
    let mut s = section(section_meta(), vec![]);
    let c: Vec<Cell> = (0..n).map(page_cell).collect();
    // root space objects 1..3 share ids with the pages
    s = {
        let mut t = Store::with_header(SECTION_SCHEMA);
        t.roots = s.roots;
        let same = |k| po(0, k);
        let mut node = section_node(&[same(3)]);
        node.id = same(1);
        let mut meta = section_meta();
        meta.id = same(2);
        t.add_space(root_cell(), 0x20, &[(CONTENT, same(1)), (META, same(2))], vec![node, meta, series(same(3), &c)]);
        t
    };
    let mut want = vec![];
    let first = vp::choose(n as u64) as u8;
    for k in 0..n {
        let (h, l, x) = (vp::u32(), vp::u32(), vp::u8());
        want.push((h, l, x));
    }
    for j in 0..n {
        // written in another order than listed
        let k = (first + j) % n;
        let (h, l, x) = want[k as usize];
        let mut v = page_objs(0, page_node(0, &[po(0, 11)]).u32(0x14001C02, h), vec![
            image_of(po(0, 11), po(0, 12)),
            Obj::new(po(0, 12), J_PICTURE).with_blob(ex(0x60, k as u32 + 1)),
        ]);
        v[1] = page_meta(po(0, 2)).u32(0x14001DFF, l);
        s.add_space(page_cell(k), 0x30 + k, &page_roots(0), v);
        s.blobs.push((ex(0x60, k as u32 + 1), vec![x]));
    }
    let s = must(parse(&s), "pages rejected");
    vp::check(s.page_series().len() == 1, "series count");
    let p = s.page_series()[0].pages();
    vp::check(p.len() == n as usize, "page count");
    for k in 0..n as usize {
        is_page(&p[k], want[k].0, want[k].1, "page of another space");
        vp::check(p[k].contents().len() == 1, "page content of another space");
        vp::check(some(p[k].contents()[0].image(), "image").data() == Some(&[want[k].2][..]), "data of another space");
    }
    vp::cover("ok");
});

// Pages and series in any order; a page may be listed several times.
entry!(r_pages, |n| {
    let n = n as usize;
    let mut lists: Vec<Vec<u8>> = vec![vec![], vec![]];
    for _ in 0..n {
        let k = vp::choose(3) as u8;
        lists[vp::choose(2) as usize].push(k);
    }
    let cells = |v: &Vec<u8>| v.iter().map(|k| page_cell(*k)).collect::<Vec<_>>();
    let swap = vp::flag();
    let (a, b) = if swap { (so(4), so(3)) } else { (so(3), so(4)) };
    let mut s = Store::with_header(SECTION_SCHEMA);
    s.roots.push((exg(DATA_ROOT, 2), root_cell()));
    s.add_space(root_cell(), 0x20, &[(CONTENT, so(1)), (META, so(2))], vec![
        series(b, &cells(&lists[1])),
        section_node(&[a, b]),
        section_meta(),
        series(a, &cells(&lists[0])),
    ]);
    let mut h = vec![];
    for k in 0..3u8 {
        let v = vp::u32();
        h.push(v);
        s.add_space(page_cell(k), 0x30 + k, &page_roots(k), page_hl(k, v, k as u32));
    }
    let s = must(parse(&s), "pages rejected");
    vp::check(s.page_series().len() == 2, "series count");
    for i in 0..2 {
        let p = s.page_series()[i].pages();
        vp::check(p.len() == lists[i].len(), "page count");
        for (j, k) in lists[i].iter().enumerate() {
            is_page(&p[j], h[*k as usize], *k as u32, "page order");
        }
    }
    vp::cover("ok");
});

// The storage index is the one the file names.
entry!(r_index, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let mut other = s.clone();
    other.index_id = ex(0x51, 2);
    // the other index exchanges the page's cell with one whose height differs
    s.add_space(page_cell(5), 0x66, &page_roots(0), page_hl(0, vp::u32(), vp::u32()));
    other.cells[2].mapping = ex(0x66, 0x10);
    other.cells.retain(|c| c.cell.1.g != page_cell(5).1.g);
    let mut e = s.elems();
    let mut w = W::new();
    other.storage_index(&mut w);
    let at = if vp::flag() { 0 } else { e.len() };
    e.insert(at, w.0);
    let s = must(parse_of(&s, &e), "two storage indexes rejected");
    is_rich(&s, h, l, &x, "storage index");
    vp::cover("ok");
});

// Objects split over several groups, in any order.
entry!(r_groups, |_| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = rich(h, l, &x);
    let g = s.groups.pop().unwrap();
    let r = s.revs.last_mut().unwrap();
    r.groups.clear();
    let mut gs: Vec<Group> = (0..3).map(|k| Group { id: ex(0x67, k + 1), objs: vec![], meta: None }).collect();
    for o in g.objs {
        gs[vp::choose(3) as usize].objs.push(o);
    }
    for (i, g) in gs.into_iter().enumerate() {
        if i == 1 {
            r.groups.insert(0, g.id);
        } else {
            r.groups.push(g.id);
        }
        s.groups.push(g);
    }
    let s = must(parse(&s), "several object groups rejected");
    is_rich(&s, h, l, &x, "object groups");
    vp::cover("ok");
});

// The header object.
entry!(r_header, |_| {
    let mut b = B::pick(Obj::new(ex(0x10, 9), 0), 4);
    let g = vp::vec(16);
    b.v(0x1C001D94, true, &g);
    let g = vp::vec(16);
    b.v(0x1C001D95, true, &g);
    b.u32(0x14001D99);
    b.u32_req(0x14001D93);
    let (o, bad) = b.done();
    let mut s = rich(1, 2, &[3]);
    s.groups[0].objs = vec![o];
    let r = parse(&s);
    if bad {
        return must_fail(r, "header without a mandatory property accepted");
    }
    is_rich(&must(r, "header rejected"), 1, 2, &[3], "header");
    vp::cover("ok");
});

// Root declarations: any role value of either GUID.
entry!(r_roles, |_| {
    let mut s = rich(1, 2, &[3]);
    let mut e = s.elems();
    let role = vp::u32();
    let mut g = g(ROLE);
    let dg = vp::u8();
    g[5] ^= dg;
    let last = vp::flag();
    s.revs[2].roots.clear();
    let r = s.revs[2].clone();
    let mut w = W::new();
    s.rev(&mut w, &r);
    // insert the declarations before the group reference
    let gr = w.0.len() - 2 - 1 - 17;
    let tail = w.0.split_off(gr);
    let mut put = |w: &mut W, e: Ex, o: Ex| {
        w.h16(ty::RM_ROOT, false, 0).ex(&e).ex(&o);
    };
    if last {
        put(&mut w, exg(ROLE, META), po(0, 2));
        put(&mut w, exg(ROLE, CONTENT), po(0, 1));
    }
    put(&mut w, Ex { g, n: role, form: 32 }, po(0, 77));
    if !last {
        put(&mut w, exg(ROLE, META), po(0, 2));
        put(&mut w, exg(ROLE, CONTENT), po(0, 1));
    }
    w.raw(&tail);
    let at = e.iter().position(|x| x.len() > 3 && x == &{
        let mut w = W::new();
        rich(1, 2, &[3]).rev(&mut w, &rich(1, 2, &[3]).revs[2]);
        w.0
    });
    e[at.unwrap()] = w.0;
    let r = parse_of(&s, &e);
    if dg != 0 || role < 1 || role > 4 {
        return must_fail(r, "undefined root role accepted");
    }
    if role == 3 || role == 4 {
        is_rich(&must(r, "defined root role rejected"), 1, 2, &[3], "other roots");
        vp::cover("ok");
    }
});

/// The bits of a non-empty subset of `n` revisions.
fn subset(n: u64) -> u64 {
    vp::choose((1 << n) - 1) + 1
}
fn newest(bits: u64) -> usize {
    bits.trailing_zeros() as usize
}
fn img_h(id: Ex, h: u32) -> Obj {
    Obj::new(id, J_IMAGE).u32(0x14001D7A, 1).u32(0x14001C1C, h)
}
// Every object of the page is stored in any of `n` revisions (0 is the newest), with other values in each;
// `a` = 10 * how the revisions are laid out + n.
entry!(r_subset, |a| {
    let n = a % 10;
    let (apart, back, split) = (a / 10 & 1 == 1, a / 20 & 1 == 1, a / 40 & 1 == 1);
    let mut s = sec1();
    let seed = 0x30;
    let (meta, node, x, y) = (subset(n), subset(n), subset(n), subset(n));
    let v = vp::bytes::<4>();
    let val = |i: u64, k: u32| u32::from_le_bytes([v[k as usize], i as u8, k as u8, 1]);
    let mut base = NIL;
    for i in (0..n).rev() {
        let mut objs = vec![];
        let has = |m: u64| m >> i & 1 == 1;
        let mut roots = vec![];
        if i == n - 1 {
            objs.push(page_manifest(po(0, 1), po(0, 3)));
        }
        // the roots are declared by every revision, or only by the oldest
        if i == n - 1 || apart {
            roots = page_roots(0);
        }
        if has(meta) {
            objs.push(page_meta(po(0, 2)).u32(0x14001DFF, val(i, 0)));
        }
        if has(node) {
            objs.push(page_node(0, &[po(0, 10), po(0, 11)]).u32(0x14001C02, val(i, 1)));
        }
        if has(x) {
            objs.push(img_h(po(0, 10), val(i, 2)));
        }
        if has(y) {
            objs.push(img_h(po(0, 11), val(i, 3)));
        }
        if back {
            objs.reverse();
        }
        base = add_rev(&mut s, seed, i as u32, base, &roots, objs, true);
        if split {
            // one group per object
            let g = s.groups.pop().unwrap();
            let r = s.revs.last_mut().unwrap();
            r.groups.clear();
            for (k, o) in g.objs.into_iter().enumerate() {
                let id = ex(seed, 0x400 + i as u32 * 16 + k as u32);
                r.groups.push(id);
                s.groups.push(Group { id, objs: vec![o], meta: None });
            }
        }
    }
    s.cells.push(CellMap { cell: page_cell(0), mapping: ex(seed, 0x10), serial: None });
    s.manifests.push((ex(seed, 0x10), base));
    let s = must(parse(&s), "revision chain rejected");
    let p = page1(&s);
    let at = |m: u64, k: u32| val(newest(m) as u64, k);
    is_page(p, at(node, 1), at(meta, 0), "not the newest revision's object");
    vp::check(p.contents().len() == 2, "content count");
    for (i, m) in [x, y].iter().enumerate() {
        let i2 = some(p.contents()[i].image(), "image");
        vp::check(eqf(i2.layout_max_height(), Some(at(*m, 2 + i as u32))), "not the newest revision's image");
    }
    vp::cover("ok");
});
// A chain of `n` revisions; the newest has the page, each revision is the first to hold one image, and every older one
// repeats all images with other values.
entry!(r_deepchain, |n| {
    let n = n as u32;
    let mut s = sec1();
    let seed = 0x30;
    let v = vp::u32();
    let ids: Vec<Ex> = (0..n).map(|k| po(0, 100 + k)).collect();
    let mut base = NIL;
    let probe = [0, n / 2, n - 1];
    for i in (0..n).rev() {
        let mut objs = vec![];
        if i == 0 {
            objs.append(&mut page_objs(0, page_node(0, &ids), vec![]));
        }
        objs.push(img_h(ids[i as usize], v ^ i));
        for p in probe {
            if p < i {
                objs.push(img_h(ids[p as usize], !v));
            }
        }
        base = add_rev(&mut s, seed, i, base, &[], objs, true);
        if i == 0 {
            s.revs.last_mut().unwrap().roots = page_roots(0);
        }
    }
    s.cells.push(CellMap { cell: page_cell(0), mapping: ex(seed, 0x10), serial: None });
    s.manifests.push((ex(seed, 0x10), base));
    let s = must(parse(&s), "long revision chain rejected");
    let c = page1(&s).contents();
    vp::check(c.len() == n as usize, "content count");
    for (i, c) in c.iter().enumerate() {
        let im = some(c.image(), "image");
        vp::check(eqf(im.layout_max_height(), Some(v ^ i as u32)), "not the newest revision's image");
    }
    vp::cover("ok");
});
