//! Determinism: the same bytes decode to the same section under every hash function, whatever was parsed before.
use crate::bld::*;
use crate::dig;
use crate::doc::*;
use crate::enc::*;
use crate::full;
use crate::store::*;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::{Parser, errors::Error};
use onenote_parser::section::Section;
use std::path::Path;

fn go(p: &mut Parser, b: &[u8]) -> Result<Section, Error> {
    p.parse_section_buffer(b, Path::new("a.one"))
}
/// Parse with the constant hash function, then with one of 64 (250) others (in a new or the same parser, with another
/// file in between or not).
fn stable(b: &[u8], id: &str) -> Option<Section> {
    stable_after(b, &rich(99, 98, &[97, 96, 95]).encode(), id)
}
fn stable_after(b: &[u8], other: &[u8], id: &str) -> Option<Section> {
    let mut p = Parser::new();
    let r0 = go(&mut p, b);
    let d0 = r0.as_ref().ok().map(dig::of);
    let mode = vp::choose(MODES.load(core::sync::atomic::Ordering::Relaxed)) + 1;
    let n = if vp::in_engine() { 1 } else { 48 };
    for _ in 0..n {
        vp::hash_mode(mode);
        let mut q = Parser::new();
        let r = if mode % 2 == 0 {
            // the same identifiers with other contents
            vp::check(go(&mut p, other).is_ok(), "other file rejected");
            go(&mut p, b)
        } else {
            go(&mut q, b)
        };
        let d = r.as_ref().ok().map(dig::of);
        vp::hash_mode(0);
        vp::check(d0.is_some() == d.is_some(), id);
        if let (Some(a), Some(b)) = (&d0, &d) {
            dig::same(a, b, id);
        }
    }
    vp::out(d0.is_some() as u64);
    vp::cover(if d0.is_some() { "ok" } else { "rejected" });
    r0.ok()
}
/// As `rich`, page cell resolved by its serial number.
fn by_serial(s: &mut Store, k: usize) {
    s.cells[k].mapping = ex(0x98, 1);
    s.cells[k].serial = Some(([0x77; 16], 5));
}
fn one(f: impl FnOnce(&mut W)) -> Vec<u8> {
    let mut w = W::new();
    f(&mut w);
    w.0
}
fn rotate<T>(v: &mut Vec<T>, n: usize) {
    let k = v.len();
    v.rotate_left(n % k);
}

static MODES: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(64);

entry!(h_det, |a| {
    MODES.store(if a < 100 { 64 } else { 250 }, core::sync::atomic::Ordering::Relaxed);
    let mut h = [0u32; 4];
    let mut l = [0u32; 4];
    let mut x = [[0u8; 3]; 4];
    for i in 0..4 {
        h[i] = vp::u32();
        l[i] = vp::u32();
        x[i] = vp::bytes();
    }
    let id = "result depends on the hash function or on earlier parses";
    let rich0 = || rich(h[0], l[0], &x[0]);
    match a % 100 {
        // an object of every kind
        0 => {
            let s = full::full(&full::V::any());
            stable_after(&s.encode(), &full::full(&full::V::fixed()).encode(), id);
        }
        // competing storage manifests: each names another root space
        1 => {
            let mut s = rich0();
            let mut es = vec![];
            for k in 1..4u8 {
                let mut t = s.clone();
                let root = Cell(ex(0x20, 1), ex(0xA0 + k, 2));
                let cell = Cell(ex(0x20, 1), ex(0xA8 + k, 2));
                s.add_space(root, 0xA0 + k, &[(CONTENT, so(1)), (META, so(2))], vec![
                    section_node(&[so(3)]),
                    section_meta(),
                    series(so(3), &[cell]),
                ]);
                s.add_space(cell, 0xA8 + k, &page_roots(0), page_hl(0, h[k as usize], l[k as usize]));
                t.roots[1].1 = root;
                es.push((t, k));
            }
            let mut e = s.elems();
            let es: Vec<_> = es
                .iter()
                .map(|(t, k)| {
                    let mut b = one(|w| t.storage_manifest(w));
                    // another identifier for all but the last
                    if *k < 3 {
                        let at = (0..b.len()).find(|i| b[*i] == 0x52).unwrap();
                        b[at] ^= 0x80 + k;
                    }
                    b
                })
                .collect();
            for m in es {
                e.insert(1, m);
            }
            stable(&s.encode_of(&e), id);
        }
        // competing storage indexes, the package naming none or one of them (twice)
        2 | 3 => {
            let mut s = rich0();
            let mut es = vec![];
            for k in 1..4u8 {
                let mut t = s.clone();
                t.index_id = if a == 3 && k < 3 { ex(0x51, 7) } else { ex(0x50 - k, 2) };
                let cell = Cell(ex(0x20, 1), ex(0xA0 + k, 9));
                s.add_space(cell, 0xA0 + k, &page_roots(0), page_hl(0, h[k as usize], l[k as usize]));
                t.cells = s.cells.clone();
                let at = t.cells.len() - 1;
                t.cells[at].cell = t.cells[2].cell;
                t.cells.remove(2);
                t.cells.truncate(3);
                t.revmaps = s.revmaps.clone();
                let last = s.cells.len() - 1;
                t.cells[2] = CellMap { cell: page_cell(0), mapping: s.cells[last].mapping, serial: None };
                es.push(one(|w| t.storage_index(w)));
            }
            let mut e = s.elems();
            e.remove(0);
            for (k, m) in es.into_iter().enumerate() {
                e.insert(k, m);
            }
            s.index_id = ex(0x51, 7);
            stable(&s.encode_of(&e), id);
        }
        // revision mappings that share a serial number
        4 => {
            let mut s = rich0();
            for k in 1..4usize {
                let r = add_rev(&mut s, 0x70, k as u32, NIL, &page_roots(0), page_hl(0, h[k], l[k]), true);
                let _ = r;
            }
            by_serial(&mut s, 2);
            for m in s.revmaps.iter_mut().skip(2) {
                m.serial = Some(([0x77; 16], 5));
            }
            rotate(&mut s.revmaps, vp::choose(6) as usize);
            stable(&s.encode(), id);
        }
        // several data elements of the same kind with the same identifier
        5 => {
            let s = rich0();
            let mut e = s.elems();
            for k in 1..4usize {
                let mut t = rich(h[k], l[k], &x[k]);
                // the older spellings of the same elements
                t.revs[2].roots.reverse();
                let mut f = t.elems();
                rotate(&mut f, k * 3);
                for b in f {
                    e.push(b);
                }
            }
            stable(&s.encode_of(&e), id);
        }
        // a revision that declares a role several times; a manifest that does
        6 => {
            let mut s = rich0();
            let g = s.groups.len() - 1;
            for k in 1..4u32 {
                let i = k as usize;
                s.groups[g].objs.push(page_manifest(po(7, k), po(8, k)));
                let mut n = page_node(0, &[]).u32(0x14001C02, h[i]);
                n.id = po(8, k);
                s.groups[g].objs.push(n);
                s.groups[g].objs.push(page_meta(po(9, k)).u32(0x14001DFF, l[i]));
                s.revs[2].roots.push((CONTENT, po(7, k)));
                s.revs[2].roots.push((META, po(9, k)));
            }
            let n = vp::choose(4) as usize;
            rotate(&mut s.revs[2].roots, n);
            let c = s.roots[1].clone();
            for k in 1..4u8 {
                let cell = Cell(ex(0x20, 1), ex(0xA0 + k, 2));
                s.roots.push((c.0, cell));
                s.add_space(cell, 0xA0 + k, &[(CONTENT, so(1)), (META, so(2))], vec![
                    section_node(&[]),
                    section_meta().u32(0x14001CBE, h[k as usize]),
                ]);
            }
            stable(&s.encode(), id);
        }
        // an object several times in one group and in several groups
        7 => {
            let mut s = rich0();
            let g = s.groups.len() - 1;
            for k in 1..4usize {
                let v = page_hl(0, h[k], l[k]);
                if k < 3 {
                    s.groups[g].objs.extend(v);
                } else {
                    s.groups.push(Group { id: ex(0x99, k as u32), objs: v, meta: None });
                    s.revs[2].groups.push(ex(0x99, k as u32));
                }
            }
            let n = vp::choose(4) as usize;
            rotate(&mut s.groups[g].objs, n * 3);
            stable(&s.encode(), id);
        }
        // several mappings of one cell, of one revision
        8 => {
            let mut s = rich0();
            for k in 1..4usize {
                let kk = k as u8;
                s.add_space(page_cell(0), 0xA0 + kk, &page_roots(0), page_hl(0, h[k], l[k]));
                let mut m = s.revmaps[s.revmaps.len() - 1].clone();
                let r = m.rev;
                m.rev = s.revmaps[2].rev;
                s.revmaps.push(m);
                s.manifests.push((s.cells[2].mapping, r));
            }
            let n = vp::choose(4) as usize;
            rotate(&mut s.revmaps, n);
            stable(&s.encode(), id);
        }
        // a property several times in one object, with values of several types
        9 => {
            let mut s = rich0();
            let g = s.groups.len() - 1;
            for o in s.groups[g].objs.iter_mut() {
                if o.jcid == J_PAGE {
                    let mut p = page_node(0, &[po(0, 11)]);
                    for k in 0..4 {
                        p = p.u32(0x14001C02, h[k]);
                        p = p.u32(0x14001C01, l[k]);
                    }
                    *o = p;
                }
            }
            stable(&s.encode(), id);
        }
        // many cells, some of them sharing a revision
        10 => {
            let mut s = rich0();
            let cells: Vec<Cell> = (0..4).map(|k| page_cell(k)).collect();
            let g = s.groups.iter().position(|g| g.objs.iter().any(|o| o.jcid == J_SERIES)).unwrap();
            for o in s.groups[g].objs.iter_mut() {
                if o.jcid == J_SERIES {
                    *o = series(so(3), &cells);
                }
            }
            for k in 1..4u8 {
                let mut v = page_hl(0, h[k as usize], l[k as usize]);
                if k == 3 {
                    v.clear();
                }
                s.add_space(cells[k as usize], 0xA0 + k, &page_roots(0), v);
            }
            // the last page consists of a base revision that another page has as well
            let b = s.revs[4].rev_id;
            s.revs[5].base = b;
            stable(&s.encode(), id);
        }
        // targets that share a compact identifier
        11 => {
            let n = [po(0, 11), po(0, 12), po(0, 13), po(0, 14)];
            let mut p = Obj::new(po(0, 3), J_PAGE);
            p.cid0 = 0x123;
            p.cstep = 0;
            p = p.oidv(0x24001C20, &n);
            let mut v = vec![];
            for (i, o) in n.iter().enumerate() {
                v.push(Obj::new(*o, J_IMAGE).u32(0x14001C01, h[i]));
            }
            stable(&one_page(p, v).encode(), id);
        }
        // something is missing, and several other things could be taken for it
        13 | 14 | 15 | 16 | 17 | 18 => {
            let mut s = rich0();
            for k in 1..4u8 {
                let kk = k as usize;
                // the same space in other contexts, and other spaces
                s.add_space(Cell(ex(0x20 + k, 1), page_cell(0).1), 0xA0 + k, &page_roots(0), page_hl(0, h[kk], l[kk]));
                s.add_space(page_cell(k), 0xB0 + k, &page_roots(0), page_hl(0, h[kk], l[kk]));
                s.blobs.push((ex(0x60, 1 + k as u32), x[kk].to_vec()));
                let root = Cell(ex(0x20, 1), ex(0xC0 + k, 2));
                s.add_space(root, 0xC0 + k, &[(CONTENT, so(1)), (META, so(2))], vec![
                    section_node(&[]),
                    section_meta().u32(0x14001CBE, h[kk]),
                ]);
                s.roots.push((ex(0xC8 + k, 1), root));
            }
            match a % 100 {
                // the data root
                13 => s.roots[1].0 = ex(0xC8, 2),
                // the header root
                14 => s.roots[0].0 = ex(0xC8, 2),
                // the page's cell
                15 => {
                    s.cells.remove(2);
                }
                // the page's revision mapping
                16 => {
                    s.revmaps.remove(2);
                }
                // the data of the image
                17 => {
                    s.blobs.remove(0);
                }
                // the page's content root
                _ => s.revs[2].roots = vec![(META, po(0, 2))],
            }
            stable(&s.encode(), id);
        }
        // broken cells beside good ones
        _ => {
            let mut s = rich0();
            for k in 1..4u8 {
                s.add_space(page_cell(k), 0xA0 + k, &page_roots(0), page_hl(0, h[k as usize], l[k as usize]));
            }
            let k = vp::choose(3) as usize;
            s.revs[3 + k].groups = vec![ex(0x99, 1)];
            stable(&s.encode(), id);
        }
    }
});
