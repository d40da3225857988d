//! Termination: cycles and deep nesting.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::store::{add_rev, page_hl, sec1};
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::contents::{Content, OutlineElement, OutlineItem};

// `n` levels of nesting. kind (hundreds of thousands digit): 0 elements, 1 groups, 2 tables,
// 3 arrays of property sets, 4 single property sets.
fn nested(kind: u64, n: u32) -> Store {
    if kind >= 3 {
        let mut o = Obj::new(po(0, 3), J_PAGE);
        let mut w = W::new();
        // object header: no object ids, no object space ids
        w.u32(0x8000_0000);
        for _ in 0..n {
            if kind == 3 {
                w.u16(1).u32(0x4000_0001).u32(1).u32(0x4400_0001);
            } else {
                w.u16(1).u32(0x4400_0001);
            }
        }
        w.u16(0);
        o.raw = Some(w.0);
        return one_page(o, vec![]);
    }
    let mut v = vec![outline0(po(0, 10), &[po(0, 1000)])];
    for i in 0..n {
        let id = po(0, 1000 + i);
        let next = [po(0, 1001 + i)];
        let next: &[Ex] = if i + 1 < n { &next } else { &[] };
        match kind {
            0 => v.push(element0(id, &[]).oidv(0x24001C20, next)),
            1 => v.push(Obj::new(id, J_GROUP).u32(0x14001D7A, 1).u8(0x0C001C03, 1).oidv(0x24001C20, next)),
            _ => {
                let t = po(0, 100_000 + i);
                let r = po(0, 200_000 + i);
                let c = po(0, 300_000 + i);
                v.push(element0(id, &[t]));
                v.push(table0(t, &[r]));
                v.push(row0(r, &[c]));
                v.push(cell0(c, next));
            }
        }
    }
    one_page(page_node(0, &[po(0, 10)]), v)
}
pub fn table0(id: Ex, rows: &[Ex]) -> Obj {
    Obj::new(id, J_TABLE).u32(0x14001D7A, 1).oidv(0x24001C20, rows).u32(0x14001D57, 1).u32(0x14001D58, 1)
}
pub fn row0(id: Ex, cells: &[Ex]) -> Obj {
    Obj::new(id, J_ROW).u32(0x14001D7A, 1).oidv(0x24001C20, cells)
}

// kind * 100000 + depth: parsing ends; nesting of ordinary depth is accepted
entry!(d_nest, |a| {
    let (kind, n) = (a / 100_000, (a % 100_000) as u32);
    vp::hash_mode(1);
    let r = parse(&nested(kind, n));
    vp::check(n > 30 || r.is_ok(), "nesting of ordinary depth rejected");
    vp::out(r.is_ok() as u64);
    std::mem::forget(r);
    vp::cover("done");
});

/// An object of a kind that contains outline items: 0 an element, 1 a group, 2 an element with a table of one cell,
/// 3 an element with an embedded table and children (the children appear in both).
fn container(kind: u64, n: u32, kids: &[Ex]) -> Vec<Obj> {
    let id = po(0, 1000 + n);
    let (t, r, c) = (po(0, 100_000 + n), po(0, 200_000 + n), po(0, 300_000 + n));
    match kind {
        0 => vec![element0(id, &[]).oidv(0x24001C20, kids)],
        1 => vec![Obj::new(id, J_GROUP).u32(0x14001D7A, 1).u8(0x0C001C03, 1).oidv(0x24001C20, kids)],
        2 => vec![element0(id, &[t]), table0(t, &[r]), row0(r, &[c]), cell0(c, kids)],
        _ => vec![element0(id, &[t]).oidv(0x24001C20, kids), table0(t, &[r]), row0(r, &[c]), cell0(c, kids)],
    }
}
fn items(l: &[OutlineItem]) -> u64 {
    l.iter()
        .map(|i| {
            1 + match i {
                OutlineItem::Element(e) => elements(e),
                OutlineItem::Group(g) => items(g.outlines()),
            }
        })
        .sum()
}
fn elements(e: &OutlineElement) -> u64 {
    let mut n = items(e.children());
    for c in e.contents() {
        if let Content::Table(t) = c {
            for r in t.contents() {
                for c in r.contents() {
                    n += c.contents().iter().map(|e| 1 + elements(e)).sum::<u64>();
                }
            }
        }
    }
    n
}
// Every graph of three containers with up to two children each; the digits of `a` are their kinds. Cyclic ones are
// rejected, the others accepted.
entry!(d_graph, |a| {
    let kinds = [a / 100, a / 10 % 10, a % 10];
    let mut kids: Vec<Vec<usize>> = vec![];
    let mut objs = vec![outline0(po(0, 10), &[po(0, 1000)])];
    for n in 0..3u32 {
        let len = vp::choose(3);
        let l: Vec<usize> = (0..len).map(|_| vp::choose(3) as usize).collect();
        let ids: Vec<Ex> = l.iter().map(|k| po(0, 1000 + *k as u32)).collect();
        objs.extend(container(kinds[n as usize], n, &ids));
        kids.push(l);
    }
    // number of items below each, None: endless; a group in a cell is not an element
    fn count(n: usize, depth: u32, in_cell: bool, kinds: &[u64], kids: &[Vec<usize>]) -> Result<u64, bool> {
        if in_cell && kinds[n] == 1 {
            return Err(true);
        }
        if depth > 3 {
            return Err(false);
        }
        let mut s = 1;
        for k in &kids[n] {
            if kinds[n] != 2 {
                s += count(*k, depth + 1, false, kinds, kids)?;
            }
            if kinds[n] >= 2 {
                s += count(*k, depth + 1, true, kinds, kids)?;
            }
        }
        Ok(s)
    }
    let r = parse(&one_page(page_node(0, &[po(0, 10)]), objs));
    match count(0, 0, false, &kinds, &kids) {
        Err(_) => must_fail(r, "cyclic or ill-formed content accepted"),
        Ok(n) => {
            let s = must(r, "acyclic content rejected");
            vp::check(items(outline1(page1(&s)).items()) == n, "number of items");
            vp::cover("ok");
        }
    }
});
// kind * 100 + depth: every container lists the next one twice, so that the number of paths doubles at each level.
entry!(d_dag, |a| {
    let (kind, n) = (a / 100, (a % 100) as u32);
    vp::hash_mode(1);
    let mut objs = vec![outline0(po(0, 10), &[po(0, 1000)])];
    for i in 0..n {
        let next = po(0, 1001 + i);
        let kids = if i + 1 < n { vec![next, next] } else { vec![] };
        objs.extend(container(kind, i, &kids));
    }
    let r = parse(&one_page(page_node(0, &[po(0, 10)]), objs));
    vp::check(n > 4 || r.is_ok(), "shared content rejected");
    vp::out(r.is_ok() as u64);
    std::mem::forget(r);
    vp::cover("done");
});

// kind * 1000 + length: a chain of containers whose last one lists any of the earlier ones (kind 4: mixed)
entry!(d_ring, |a| {
    let (kind, n) = (a / 1000, (a % 1000) as u32);
    let back = po(0, 1000 + vp::choose(n as u64) as u32);
    vp::hash_mode(1);
    let mut objs = vec![outline0(po(0, 10), &[po(0, 1000)])];
    for i in 0..n {
        let k = if kind < 4 { kind } else { [0, 1, 0, 2, 0][i as usize % 5] };
        objs.extend(container(k, i, &[if i + 1 < n { po(0, 1001 + i) } else { back }]));
    }
    must_fail(parse(&one_page(page_node(0, &[po(0, 10)]), objs)), "cyclic content accepted");
});
// The same for base revisions.
entry!(d_revring, |n| {
    let n = n as u32;
    let back = vp::choose(n as u64) as u32;
    vp::hash_mode(1);
    let mut s = sec1();
    for k in 0..n {
        let mut o = page_hl(0, 100 + k, 7);
        if k == 0 {
            o.remove(2);
        }
        add_rev(&mut s, 0x30, k, ex(0x30, 0x100 + if k + 1 < n { k + 1 } else { back }), &page_roots(0), o, true);
    }
    s.cells.push(CellMap { cell: page_cell(0), mapping: ex(0x30, 0x10), serial: None });
    s.manifests.push((ex(0x30, 0x10), ex(0x30, 0x100)));
    must_fail(parse(&s), "cycle of base revisions accepted");
});
