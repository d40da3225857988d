//! Identifiers that differ only in part from the right one: they neither replace it nor stand in for it.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::store::*;
use crate::{entry, vp};

/// Any identifier other than `e` that shares its first GUID byte or all its other bytes.
fn near(e: Ex, objects: bool) -> Ex {
    let mut x = Ex { g: e.g, n: vp::u32(), form: 32 };
    if vp::flag() {
        for b in x.g[1..].iter_mut() {
            *b = vp::u8();
        }
    } else {
        x.g[0] = vp::u8();
    }
    vp::assume(x.n != e.n || x.g != e.g);
    if objects {
        vp::assume(x.n >= 64);
    }
    x
}
/// `rich`, with a second space whose parts are the decoys.
fn with_decoy(h: u32, l: u32, x: &[u8], h2: u32) -> Store {
    let mut s = rich(h, l, x);
    let mut v = page_hl(0, h2, 77);
    v.push(Obj::new(po(0, 12), J_PICTURE).with_blob(ex(0x60, 9)));
    s.add_space(page_cell(9), 0x66, &page_roots(0), v);
    s.blobs.push((ex(0x60, 9), vec![1]));
    s
}
fn put<T>(v: &mut Vec<T>, at: usize, first: bool, x: T) {
    let i = if first { 0 } else { at + 1 };
    v.insert(i, x);
}

// A decoy beside the right entry. `k`: which identifier.
entry!(r_near, |k| {
    let (h, l, x, h2) = (vp::u32(), vp::u32(), vp::bytes::<3>(), vp::u32());
    let mut s = with_decoy(h, l, &x, h2);
    let first = vp::flag();
    match k {
        0 | 1 => {
            let c = s.cells[2].cell;
            let cell = if k == 0 { Cell(near(c.0, false), c.1) } else { Cell(c.0, near(c.1, false)) };
            let m = s.cells[3].mapping;
            put(&mut s.cells, 2, first, CellMap { cell, mapping: m, serial: None });
        }
        2 => {
            let e = (near(s.manifests[2].0, false), s.manifests[3].1);
            put(&mut s.manifests, 2, first, e);
        }
        3 => {
            let e = RevMap { rev: near(s.revmaps[2].rev, false), manifest: s.revmaps[3].manifest, serial: None };
            put(&mut s.revmaps, 2, first, e);
        }
        4 => {
            let mut r = s.revs[3].clone();
            r.id = near(s.revs[2].id, false);
            put(&mut s.revs, 2, first, r);
        }
        5 => {
            let mut g = s.groups[3].clone();
            g.id = near(s.groups[2].id, false);
            put(&mut s.groups, 2, first, g);
        }
        6 => {
            let b = (near(s.blobs[0].0, false), vec![vp::u8()]);
            put(&mut s.blobs, 0, first, b);
        }
        7 | 8 => {
            let i = if k == 7 { 1 } else { 0 };
            let r = (near(s.roots[i].0, false), s.roots[1 - i].1);
            put(&mut s.roots, i, first, r);
        }
        9 => {
            // the page's image
            let g = &mut s.groups[2].objs;
            let o = image_of(near(po(0, 11), true), po(0, 12)).u32(0x14001C01, 5);
            put(g, 3, first, o);
        }
        10 => {
            // the page itself
            let g = &mut s.groups[2].objs;
            let mut o = page_node(0, &[]).u32(0x14001C02, h2);
            o.id = near(po(0, 3), true);
            put(g, 2, first, o);
        }
        _ => {
            // the base revision
            let g = s.groups[2].objs.clone();
            s.groups[2].objs.clear();
            let base = add_rev(&mut s, 0x70, 1, NIL, &[], g, true);
            s.revs[2].base = base;
            let d = RevMap { rev: near(base, false), manifest: s.revmaps[3].manifest, serial: None };
            let at = s.revmaps.len() - 1;
            put(&mut s.revmaps, at, first, d);
        }
    }
    let s = must(parse(&s), "file with a similar identifier rejected");
    is_rich(&s, h, l, &x, "entry with a similar identifier used");
    vp::cover("ok");
});

// The right entry is missing, and one with a similar identifier is there.
entry!(r_nearonly, |k| {
    let x = vp::bytes::<3>();
    let mut s = with_decoy(1, 2, &x, 3);
    match k {
        0 => s.cells[2].cell.0 = near(s.cells[2].cell.0, false),
        1 => s.cells[2].cell.1 = near(s.cells[2].cell.1, false),
        2 => s.manifests[2].0 = near(s.manifests[2].0, false),
        3 => {
            let r = near(s.revmaps[2].rev, false);
            // the cell mapping may itself be a revision mapping
            let m = s.cells[2].mapping;
            vp::assume(r.n != m.n || r.g != m.g);
            s.revmaps[2].rev = r;
        }
        4 => s.revs[2].id = near(s.revs[2].id, false),
        5 => s.groups[2].id = near(s.groups[2].id, false),
        6 => s.blobs[0].0 = near(s.blobs[0].0, false),
        7 => s.roots[1].0 = near(s.roots[1].0, false),
        8 => s.roots[0].0 = near(s.roots[0].0, false),
        9 => s.groups[2].objs[3].id = near(po(0, 11), true),
        10 => s.groups[2].objs[2].id = near(po(0, 3), true),
        11 => {
            let g = s.groups[2].objs.clone();
            s.groups[2].objs.clear();
            let base = add_rev(&mut s, 0x70, 1, NIL, &[], g, true);
            s.revs[2].base = base;
            let at = s.revmaps.len() - 1;
            s.revmaps[at].rev = near(base, false);
        }
        // all the mappings of the page's cell
        12 => {
            for i in 0..2 {
                s.cells[2 + i].cell = Cell(near(page_cell(0).0, false), page_cell(0).1);
            }
        }
        _ => {
            for i in 0..2 {
                s.cells[2 + i].cell = Cell(page_cell(0).0, near(page_cell(0).1, false));
            }
        }
    }
    must_fail(parse(&s), "entry with a similar identifier used for a missing one");
});

// A cell that leads to a revision by its identifiers and, by its serial number, to another one.
entry!(r_routes, |k| {
    let (h, l, x) = (vp::u32(), vp::u32(), vp::bytes::<3>());
    let mut s = with_decoy(h, l, &x, vp::u32());
    let (g, n) = (vp::bytes::<16>(), vp::u64());
    vp::assume(n != 0);
    s.cells[2].serial = Some((g, n));
    s.revmaps[3].serial = Some((g, n));
    if vp::flag() {
        s.revmaps.swap(2, 3);
    }
    let way = vp::choose(4);
    reroute(&mut s, k as usize, way);
    let s = must(parse(&s), "cell with a serial number rejected");
    is_rich(&s, h, l, &x, "cell with a serial number");
    vp::cover("ok");
});
