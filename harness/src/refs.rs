//! References: which target a property gets, whatever stands before it.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::wire::*;
use crate::{entry, vp};

const LAST_MOD: u32 = 0x14001D7A;

/// The `k`-th permutation of `n` items.
pub fn perm(n: usize, mut k: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut r = vec![];
    for i in (1..=n).rev() {
        r.push(left.remove((k % i as u64) as usize));
        k /= i as u64;
    }
    r
}
fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}
pub fn any_perm(n: usize) -> Vec<usize> {
    perm(n, vp::choose(fact(n)))
}

/// Number of kinds of `unknown`.
pub const KINDS: u64 = 10;
/// Add properties this library does not know that hold references (to objects that do not exist).
pub fn unknown(mut o: Obj, kind: u64) -> Obj {
    let x = |n| ex(0x71, n);
    let cx = |n| Cell(ex(0x72, n), ex(0x73, n));
    match kind {
        0 => o,
        1 => o.oid(0x20003777, x(1)),
        2 => o.oidv(0x24003777, &[x(1), x(2)]),
        3 => o.oidv(0x24003777, &[]).oid(0x20003776, x(1)),
        4 => {
            // an array of two sets: one holds a single reference, the other an array of two
            let mut a = PS::new();
            a.u32(0x14003701, 5).id(0x20003702);
            let mut b = PS::new();
            b.u32(0x24003703, 2).u8(0x0C003704, 1);
            o = o.sets(0x40003778, 0x44003779, &[a, b]);
            for n in 1..4 {
                o.addref(x(n));
            }
            o
        }
        5 => {
            // a single set holding a reference and another set with two
            let mut i = PS::new();
            i.id(0x20003702).id(0x20003703);
            let mut a = PS::new();
            a.id(0x20003705).id(0x44003706).b(0x08003707, true);
            let b = i.bytes();
            a.vals.raw(&b);
            o.ps.id(0x4400377A);
            let b = a.bytes();
            o.ps.vals.raw(&b);
            for n in 1..4 {
                o.addref(x(n));
            }
            o
        }
        6 => {
            // a set in an array in a set
            let mut i = PS::new();
            i.u32(0x24003702, 1);
            let mut a = PS::new();
            a.u32(0x40003706, 2);
            a.vals.u32(0x44003708);
            let b = i.bytes();
            a.vals.raw(&b).raw(&b);
            o.ps.id(0x4400377A);
            let b = a.bytes();
            o.ps.vals.raw(&b);
            for n in 1..3 {
                o.addref(x(n));
            }
            o
        }
        7 => o.osid(0x28003771, cx(1)).osidv(0x2C003772, &[cx(2), cx(3)]),
        8 => {
            o.ps.id(0x3000377B).u32(0x3400377C, 2);
            for n in 1..4 {
                // contexts: cells whose second id is the page's own object space
                let cid = o.cid0;
                o.cid0 += o.cstep;
                o.ctxs.push(CellRef { cid, to: Cell(ex(0x74, n), page_cell(0).1) });
            }
            o
        }
        _ => {
            // object spaces and objects nested in one set
            let mut a = PS::new();
            a.id(0x28003701).id(0x20003702).u32(0x2C003703, 2).u32(0x24003704, 0);
            o.ps.id(0x4400377A);
            let b = a.bytes();
            o.ps.vals.raw(&b);
            o.addref(x(1));
            for n in 1..4 {
                o.addcell(cx(n));
            }
            o
        }
    }
}
pub fn image_h(id: Ex, h: u32) -> Obj {
    Obj::new(id, J_IMAGE).u32(0x14001C1C, h)
}
fn list_r(id: Ex, n: u32) -> Obj {
    Obj::new(id, J_LIST).u32(LAST_MOD, 1).v(0x1C001C1A, &[1, 0, b'x', 0]).u32(0x14001CB7, n)
}
fn elem_l(id: Ex, l: u8) -> Obj {
    Obj::new(id, J_ELEMENT)
        .u32(0x14001D09, 1)
        .u32(LAST_MOD, 1)
        .u8(0x0C001C03, l)
        .oid(0x20001D78, ex(0x77, 1))
        .oid(0x20001D79, ex(0x77, 1))
}

// An outline element whose reference properties stand in any order, with unknown ones anywhere among them;
// all references with their own compact ids, or all sharing a single one.
entry!(f_order, |kind| {
    let p = any_perm(4);
    let at = if kind == 0 { 4 } else { vp::choose(5) as usize };
    let mut o = Obj::new(po(0, 11), J_ELEMENT).u32(0x14001D09, 1);
    if vp::flag() {
        o.cstep = 0;
    }
    for (i, w) in p.iter().enumerate() {
        if i == at {
            o = unknown(o, kind);
        }
        o = match w {
            0 => o.oidv(0x24001C1F, &[po(0, 20), po(0, 21)]).u32(LAST_MOD, 1),
            1 => o.oidv(0x24001C20, &[po(0, 22), po(0, 23)]),
            2 => o.u8(0x0C001C03, 1).oidv(0x24001C26, &[po(0, 24), po(0, 25), po(0, 26)]),
            _ => o.oid(0x20001D78, ex(0x77, 1)).oid(0x20001D79, ex(0x77, 1)),
        };
    }
    if at == 4 {
        o = unknown(o, kind);
    }
    let (h, r, l) = (vp::bytes::<2>(), vp::bytes::<3>(), vp::bytes::<2>());
    let objs = vec![
        outline0(po(0, 10), &[po(0, 11)]),
        o,
        image_h(po(0, 20), h[0] as u32),
        image_h(po(0, 21), h[1] as u32),
        elem_l(po(0, 22), l[0]),
        elem_l(po(0, 23), l[1]),
        list_r(po(0, 24), r[0] as u32),
        list_r(po(0, 25), r[1] as u32),
        list_r(po(0, 26), r[2] as u32),
    ];
    let s = must(parse(&one_page(page_node(0, &[po(0, 10)]), objs)), "reference order rejected");
    let e = elem1(outline1(page1(&s)));
    vp::check(e.contents().len() == 2, "content count");
    vp::check(e.children().len() == 2, "child count");
    vp::check(e.list_contents().len() == 3, "list count");
    for i in 0..2 {
        let c = some(e.contents()[i].image(), "content is not the image");
        vp::check(eqf(c.layout_max_height(), Some(h[i] as u32)), "content target");
        let c = some(e.children()[i].element(), "child is not the element");
        vp::check(c.child_level() == l[i], "child target");
    }
    for i in 0..3 {
        vp::check(e.list_contents()[i].list_restart() == Some(r[i] as i32), "list target");
    }
    vp::cover("ok");
});

// A text object: style, run styles, tags with definitions, in any order.
entry!(f_text, |kind| {
    let p = any_perm(3);
    let at = if kind == 0 { 3 } else { vp::choose(4) as usize };
    let mut o = Obj::new(po(0, 12), J_TEXT).u32(LAST_MOD, 1);
    if vp::flag() {
        o.cstep = 0;
    }
    // references inside the tags, before and after the definition
    let inner = vp::choose(3);
    for (i, w) in p.iter().enumerate() {
        if i == at {
            o = unknown(o, kind);
        }
        o = match w {
            0 => o.oid(0x2000342C, po(0, 13)),
            1 => o.oidv(0x24001E13, &[po(0, 14), po(0, 15)]),
            _ => {
                let mut sets = vec![];
                let mut t = vec![];
                for k in 0..2u32 {
                    let mut s = PS::new();
                    if inner == 1 {
                        s.id(0x2000377D).u32(0x2400377E, 2);
                        t.extend_from_slice(&[ex(0x71, 7), ex(0x71, 8), ex(0x71, 9)]);
                    }
                    s.id(0x20003488);
                    t.push(po(0, 30 + k));
                    if inner == 2 {
                        s.id(0x2000377D);
                        t.push(ex(0x71, 7));
                        let mut i = PS::new();
                        i.id(0x20003702);
                        s.id(0x4400377F);
                        let b = i.bytes();
                        s.vals.raw(&b);
                        t.push(ex(0x71, 8));
                    }
                    s.u32(0x1400346E, 1).u16(0x10003470, 0);
                    sets.push(s);
                }
                o = o.sets(0x40003489, 0x44000811, &sets);
                for t in t {
                    o.addref(t);
                }
                o
            }
        };
    }
    if at == 3 {
        o = unknown(o, kind);
    }
    let v = vp::bytes::<5>();
    let st = |n: u32, v: u8| style0(po(0, n)).u16(0x10001C0B, v as u16);
    let d = |n: u32, v: u8| {
        Obj::new(po(0, n), J_TAG_DEF).s(0x1C003468, "d").u32(0x14003467, v as u32).u16(0x10003464, 13).u16(0x10003463, 3)
    };
    let objs = vec![o, st(13, v[0]), st(14, v[1]), st(15, v[2]), d(30, v[3]), d(31, v[4])];
    let s = must(parse(&in_element(&[po(0, 12)], objs)), "reference order rejected");
    let t = some(content1(&s).rich_text(), "rich text");
    vp::check(t.paragraph_style().font_size() == Some(v[0] as u16), "style target");
    let f = t.text_run_formatting();
    vp::check(f.len() == 2, "run style count");
    vp::check(f[0].font_size() == Some(v[1] as u16) && f[1].font_size() == Some(v[2] as u16), "run style target");
    let g = t.note_tags();
    vp::check(g.len() == 2, "tag count");
    for k in 0..2 {
        let d = some(g[k].definition(), "tag has no definition").status();
        vp::check(d.has_label() == (v[3 + k] & 1 == 1), "tag target");
        vp::check(d.has_font_color() == (v[3 + k] >> 1 & 1 == 1), "tag target");
        vp::check(d.due_tomorrow() == (v[3 + k] >> 7 & 1 == 1), "tag target");
    }
    vp::cover("ok");
});

// Object spaces: the pages of a series, with other references of every kind before or after them.
entry!(f_space, |kind| {
    let mut o = Obj::new(so(3), J_SERIES);
    if vp::flag() {
        o.cstep = 0;
    }
    let at = vp::choose(3);
    if at == 0 {
        o = unknown(o, kind);
    }
    o = o.v(0x1C001C30, &[0x32; 16]).osidv(0x2C001D63, &[page_cell(0), page_cell(1)]);
    if at == 1 {
        o = unknown(o, kind);
    }
    if at == 2 {
        // between others
        o.ps.n = 0;
        o.ps.ids.0.clear();
        o.ps.vals.0.clear();
        o.osids.clear();
        o = unknown(o, kind).v(0x1C001C30, &[0x32; 16]).osid(0x28003711, Cell(ex(0x72, 9), ex(0x73, 9)));
        o = o.osidv(0x2C001D63, &[page_cell(0), page_cell(1)]).osid(0x28003712, Cell(ex(0x72, 8), ex(0x73, 8)));
    }
    for c in &mut o.ctxs {
        // contexts of the section's own space
        c.to.1 = root_cell().1;
    }
    let mut s = section(section_meta(), vec![o]);
    let v = [vp::u32(), vp::u32()];
    for k in 0..2u8 {
        let h = v[k as usize];
        s.add_space(page_cell(k), 0x30 + k, &page_roots(k), page_objs(k, page_node(k, &[]).u32(0x14001C02, h), vec![]));
    }
    let s = must(parse(&s), "object space references rejected");
    let p = s.page_series()[0].pages();
    vp::check(p.len() == 2, "page count");
    for k in 0..2 {
        vp::check(eqf(p[k].height(), Some(v[k])), "page target");
    }
    vp::cover("ok");
});

// Any compact ids at all, also colliding ones: references are taken by position.
entry!(f_cids, |n| {
    let n = n as usize;
    let ids: Vec<Ex> = (0..n as u32).map(|k| po(0, 20 + k)).collect();
    let mut e = element0(po(0, 11), &ids);
    let v = vp::vec(n);
    let mut objs = vec![outline0(po(0, 10), &[po(0, 11)])];
    for k in 0..n {
        e.oids[k].cid = vp::u32();
        objs.push(image_h(ids[k], v[k] as u32));
    }
    // the authors may collide as well
    e.oids[n].cid = if vp::flag() { e.oids[0].cid } else { 5 };
    if vp::flag() {
        // so may a context
        e.ctxs.push(CellRef { cid: e.oids[0].cid, to: Cell(ex(0x74, 1), page_cell(0).1) });
    }
    objs.push(e);
    let s = must(parse(&one_page(page_node(0, &[po(0, 10)]), objs)), "compact ids rejected");
    let e = elem1(outline1(page1(&s)));
    vp::check(e.contents().len() == n, "content count");
    for k in 0..n {
        let c = some(e.contents()[k].image(), "content is not the image");
        vp::check(eqf(c.layout_max_height(), Some(v[k] as u32)), "content target");
    }
    vp::cover("ok");
});

// Any stored length of a reference array; `a` 0: objects, 1: object spaces.
entry!(f_count, |a| {
    let c = vp::u32();
    if a == 0 {
        let mut o = Obj::new(po(0, 3), J_PAGE);
        o.ps.u32(0x24001C20, c);
        for k in 0..3 {
            o.addref(po(0, 20 + k));
        }
        let v = vp::bytes::<3>();
        let objs = (0..3).map(|k| image_h(po(0, 20 + k), v[k as usize] as u32)).collect();
        let r = parse(&one_page(o, objs));
        if c > 3 {
            return must_fail(r, "array longer than the references accepted");
        }
        let s = must(r, "array rejected");
        let p = page1(&s).contents();
        vp::check(p.len() == c as usize, "content count");
        for k in 0..p.len() {
            let i = some(p[k].image(), "content is not the image");
            vp::check(eqf(i.layout_max_height(), Some(v[k] as u32)), "content target");
        }
    } else {
        let mut o = series(so(3), &[]);
        let n = o.ps.vals.0.len();
        o.ps.vals.0.truncate(n - 4);
        o.ps.vals.u32(c);
        o.addcell(page_cell(0));
        o.addcell(page_cell(1));
        let mut s = section(section_meta(), vec![o]);
        let v = [vp::u32(), vp::u32()];
        for k in 0..2u8 {
            let h = v[k as usize];
            s.add_space(page_cell(k), 0x30 + k, &page_roots(k), page_objs(k, page_node(k, &[]).u32(0x14001C02, h), vec![]));
        }
        let r = parse(&s);
        if c > 2 {
            return must_fail(r, "array longer than the references accepted");
        }
        let s = must(r, "array rejected");
        let p = s.page_series()[0].pages();
        vp::check(p.len() == c as usize, "page count");
        for k in 0..p.len() {
            vp::check(eqf(p[k].height(), Some(v[k])), "page target");
        }
    }
    vp::cover("ok");
});

// Counts of references held by unknown properties shift the later ones by exactly that many.
entry!(f_shift, |a| {
    let c = vp::u32();
    let mut o = Obj::new(po(0, 3), J_PAGE);
    match a {
        0 => {
            o.ps.u32(0x24003777, c);
        }
        1 => {
            let mut i = PS::new();
            i.u32(0x24003702, c);
            o = o.sets(0x40003778, 0x44003779, &[PS::new(), i]);
        }
        _ => {
            let mut i = PS::new();
            i.u32(0x24003702, c).u32(0x24003703, c);
            o.ps.id(0x4400377A);
            let b = i.bytes();
            o.ps.vals.raw(&b);
        }
    }
    o.ps.u32(0x24001C20, 1);
    for k in 0..4 {
        o.addref(po(0, 20 + k));
    }
    let v = vp::bytes::<4>();
    let objs = (0..4).map(|k| image_h(po(0, 20 + k), v[k as usize] as u32)).collect();
    let r = parse(&one_page(o, objs));
    let c = c as u64 * if a == 2 { 2 } else { 1 };
    if c > 3 {
        return must_fail(r, "array past the references accepted");
    }
    let s = must(r, "array rejected");
    let i = some(pc1(page1(&s)).image(), "content is not the image");
    vp::check(eqf(i.layout_max_height(), Some(v[c as usize] as u32)), "content target");
    vp::cover("ok");
});

// A reference whose compact id has no target in the store is not given another object's.
entry!(f_unmapped, |a| {
    // the object declares more references than the store gives targets
    let mut o = Obj::new(po(0, 3), J_PAGE);
    let raw_targets = 2usize;
    o = o.oidv(0x24001C20, &[po(0, 20), po(0, 21), po(0, 22)]);
    if a == 1 {
        // the third shares its compact id with the second
        o.oids[2].cid = o.oids[1].cid;
    }
    let stream = o.stream();
    o.oids.truncate(raw_targets);
    o.raw = Some(stream);
    let v = vp::bytes::<3>();
    let objs = (0..3).map(|k| image_h(po(0, 20 + k), v[k as usize] as u32)).collect();
    let r = parse(&one_page(o, objs));
    if let Ok(s) = r {
        let p = page1(&s).contents();
        let n = if a == 1 { 3 } else { 2 };
        vp::check(p.len() == n, "content count");
        for k in 0..n {
            let i = some(p[k].image(), "content is not the image");
            let w = v[if k == 2 { 1 } else { k }];
            vp::check(eqf(i.layout_max_height(), Some(w as u32)), "content target");
        }
    }
    vp::cover("ok");
});
