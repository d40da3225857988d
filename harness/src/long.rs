//! Many items: counts and lengths around the borders of one and two bytes.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::ink::{ink_doc, ink0, inkdata0, path, sprops0, the_ink};
use crate::nb;
use crate::refs::image_h;
use crate::store::*;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::Parser;
use std::path::Path;

const N: [usize; 8] = [255, 256, 257, 300, 65535, 65536, 65537, 70000];

fn doc(o: Obj) -> onenote_parser::section::Section {
    must(parse(&in_element(&[po(0, 12)], vec![o, style0(po(0, 13))])), "long text rejected")
}
/// Three places of `n` items, each with an arbitrary printable character.
fn spots(n: usize) -> ([usize; 3], [u8; 3]) {
    let c = [vp::u8(), vp::u8(), vp::u8()];
    for c in c {
        vp::assume(c & 0x7f >= 0x20 && c < 0x7f);
    }
    ([0, n / 2, n - 1], c)
}
// Text of N[a % 10] characters; `a / 10`: 0 UTF-16, 1 the ASCII property.
entry!(l_text, |a| {
    let n = N[a as usize % 10];
    let (at, c) = spots(n);
    let mut t: Vec<u8> = (0..n).map(|k| b'a' + (k % 23) as u8).collect();
    for k in 0..3 {
        t[at[k]] = c[k];
    }
    let o = text0(po(0, 12), po(0, 13));
    let o = if a / 10 == 0 {
        let mut b = Vec::with_capacity(2 * n);
        for c in &t {
            b.push(*c);
            b.push(0);
        }
        o.v(0x1C001C22, &b)
    } else {
        o.v(0x1C003498, &t)
    };
    let s = doc(o);
    let g = some(content1(&s).rich_text(), "content is no rich text").text().as_bytes();
    vp::check(g.len() == n, "length of a long text");
    let mut same = true;
    for k in 0..n {
        same &= g[k] == t[k];
    }
    vp::check(same, "characters of a long text");
    vp::cover("ok");
});

// N[a % 10] references of an unknown array before a known one; `a / 10` as `kinds`.
entry!(l_refs, |a| {
    let n = N[a as usize % 10];
    let v = [vp::u32(), vp::u32()];
    let mut o = Obj::new(po(0, 3), J_PAGE);
    let shared = |o: &mut Obj, f: &dyn Fn(&mut Obj)| {
        let s = o.cstep;
        o.cstep = 0;
        f(o);
        o.cid0 += 1;
        o.cstep = s;
    };
    match a / 10 {
        0 => {
            // an array of references
            o.ps.u32(0x24003777, n as u32);
            shared(&mut o, &|o| (0..n).for_each(|_| drop(o.addref(NIL))));
        }
        1 => {
            // as many sets of one reference each
            o.ps.u32(0x40003778, n as u32);
            o.ps.vals.u32(0x44003779);
            for _ in 0..n {
                o.ps.vals.u16(1).u32(0x20003702);
            }
            shared(&mut o, &|o| (0..n).for_each(|_| drop(o.addref(NIL))));
        }
        _ => {
            // two arrays whose lengths add up
            for (id, k) in [(0x24003771, n / 2), (0x24003773, n - n / 2)] {
                o.ps.u32(id, k as u32);
                shared(&mut o, &|o| (0..k).for_each(|_| drop(o.addref(NIL))));
            }
        }
    }
    let o = o.oidv(0x24001C20, &[po(0, 20), po(0, 21)]);
    let r = parse(&one_page(o, vec![image_h(po(0, 20), v[0]), image_h(po(0, 21), v[1])]));
    let s = must(r, "many references rejected");
    let p = page1(&s).contents();
    vp::check(p.len() == 2, "content count");
    for k in 0..2 {
        let i = some(p[k].image(), "content is not the image");
        vp::check(eqf(i.layout_max_height(), Some(v[k])), "content target");
    }
    vp::cover("ok");
});

// N[a] object spaces of an unknown array before the known page.
entry!(l_spaces, |a| {
    let n = N[a as usize];
    let mut o = Obj::new(so(3), J_SERIES).v(0x1C001C30, &[0x32; 16]);
    o.ps.u32(0x2C003772, n as u32);
    o.cstep = 0;
    for _ in 0..n {
        o.addcell(Cell(NIL, NIL));
    }
    o.cid0 += 1;
    o.cstep = 1;
    let o = o.osidv(0x2C001D63, &[page_cell(1), page_cell(0)]);
    let mut s = section(section_meta(), vec![o]);
    let v = [vp::u32(), vp::u32()];
    for i in 0..2u8 {
        s.add_space(page_cell(i), 0x30 + i * 3, &page_roots(i), page_objs(i, page_node(i, &[]).u32(0x14001C02, v[i as usize]), vec![]));
    }
    let s = must(parse(&s), "many object spaces rejected");
    let p = s.page_series()[0].pages();
    vp::check(p.len() == 2, "page count");
    vp::check(eqf(p[0].height(), Some(v[1])) && eqf(p[1].height(), Some(v[0])), "page target");
    vp::cover("ok");
});

// N[a % 10] unknown properties (or bytes of one) around the known ones.
entry!(l_props, |a| {
    let n = N[a as usize % 10];
    let (h, w, b) = (vp::u32(), vp::u32(), vp::u8());
    let mut o = page_node(0, &[]).u32(0x14001C02, h);
    if a / 10 == 0 {
        for k in 0..n as u32 {
            match k % 4 {
                0 => o.ps.u8(0x0C010000 + k, b),
                1 => o.ps.u32(0x14010000 + k, w),
                2 => o.ps.b(0x08010000 + k, b & 1 == 1),
                _ => o.ps.v(0x1C010000 + k, &[b]),
            };
        }
    } else {
        let mut d = vec![0xA5; n];
        d[n - 1] = b;
        o = o.v(0x1C003777, &d);
    }
    let o = o.u32(0x14001C01, w);
    let s = must(parse(&one_page(o, vec![])), "many unknown properties rejected");
    vp::check(eqf(page1(&s).height(), Some(h)), "page height");
    vp::cover("ok");
});

// A path of `a` numbers.
entry!(l_path, |a| {
    let n = a as usize;
    let mut v: Vec<i64> = (0..n as i64).map(|k| k % 50 - 25).collect();
    let x = vp::u8();
    let y = vp::u8();
    v[n / 2 - 1] = 0;
    v[n - 1] = 0;
    let mut p = path(&v);
    // one byte each
    let l = p.len();
    vp::assume(x < 0x80 && y < 0x80);
    p[l - n / 2 - 1] = x;
    p[l - 1] = y;
    let of = |b: u8| if b & 1 == 1 { -((b >> 1) as i64) } else { (b >> 1) as i64 };
    v[n / 2 - 1] = of(x);
    v[n - 1] = of(y);
    let r = parse(&ink_doc(
        1,
        ink0(po(0, 12), po(0, 20)),
        vec![inkdata0(po(0, 20), &[po(0, 21)]), stroke0_(p), sprops0(po(0, 22))],
    ));
    let s = must(r, "long ink path rejected");
    let p = the_ink(&s, 1).ink_strokes()[0].path();
    vp::check(p.len() == n / 2, "point count");
    let mut same = true;
    for k in 0..n / 2 {
        same &= p[k].x() == v[k] as f32 && p[k].y() == v[n / 2 + k] as f32;
    }
    vp::check(same, "point");
    vp::cover("ok");
});
fn stroke0_(p: Vec<u8>) -> Obj {
    crate::ink::stroke0(po(0, 21), po(0, 22), &p)
}

// Text runs: `a` indices, one formatting.
entry!(l_runs, |a| {
    let n = a as usize;
    let x = vp::u32();
    let mut b = vec![];
    for k in 0..n as u32 {
        b.extend_from_slice(&(x ^ k).to_le_bytes());
    }
    let s = doc(text0(po(0, 12), po(0, 13)).v(0x1C001E12, &b));
    let g = some(content1(&s).rich_text(), "content is no rich text").text_run_indices();
    vp::check(g.len() == n, "number of run indices");
    let mut same = true;
    for k in 0..n {
        same &= g[k] == x ^ k as u32;
    }
    vp::check(same, "run indices");
    vp::cover("ok");
});

// `a % 100000` further object groups of the page's revision (0), unused data elements (1), objects (2),
// cells (3).
entry!(l_store, |a| {
    let n = a as u32 % 100000;
    let (h, l) = (vp::u32(), vp::u32());
    if n > 5000 {
        vp::hash_mode(1);
    }
    let mut s = sec1();
    let page = page_hl(0, h, l);
    match a / 100000 {
        0 => {
            s.add_space(page_cell(0), 0x30, &page_roots(0), vec![page[0].clone()]);
            let at = s.revs.len() - 1;
            let mut rest: Vec<Vec<Obj>> = (0..n).map(|k| vec![image_h(po(0, 100 + k), k)]).collect();
            rest.push(page[1..].to_vec());
            for (k, objs) in rest.into_iter().enumerate() {
                let id = ex(0x91, k as u32);
                s.groups.push(Group { id, objs, meta: None });
                s.revs[at].groups.push(id);
            }
        }
        1 => {
            for k in 0..n {
                s.blobs.push((ex(0x92, k), vec![k as u8]));
            }
            s.add_space(page_cell(0), 0x30, &page_roots(0), page);
        }
        2 => {
            let mut objs: Vec<Obj> = (0..n).map(|k| image_h(po(0, 100 + k), k)).collect();
            objs.extend(page);
            s.add_space(page_cell(0), 0x30, &page_roots(0), objs);
        }
        _ => {
            s.add_space(Cell(ex(0x93, 1), ex(0x94, 900)), 0x60, &[(CONTENT, po(0, 7))], vec![image_h(po(0, 7), 1)]);
            for k in 0..n {
                let c = Cell(ex(0x93, 1), ex(0x94, k));
                s.cells.push(CellMap { cell: c, mapping: ex(0x60, 0x10), serial: None });
            }
            s.add_space(page_cell(0), 0x30, &page_roots(0), page);
        }
    }
    let s = must(parse(&s), "large store rejected");
    is_page(page1(&s), h, l, "page of a large store");
    vp::cover("ok");
});

// A section name of N[a % 10] characters: stored (0), from the file name (1).
entry!(l_name, |a| {
    let n = N[a as usize % 10];
    let (at, c) = spots(n);
    let mut t: Vec<u8> = (0..n).map(|k| b'a' + (k % 23) as u8).collect();
    for k in 0..3 {
        t[at[k]] = c[k];
        vp::assume(c[k] != b'/' && c[k] != b'.' && c[k] != b'\\');
    }
    let t = String::from_utf8(t).unwrap();
    let mut m = section_meta();
    let mut f = String::from("f");
    if a / 10 == 0 {
        m.ps.ascii(0x1C00349B, &t);
    } else {
        f = t.clone();
    }
    f.push_str(".one");
    let s = must(Parser::new().parse_section_buffer(&section(m, vec![]).encode(), Path::new(&f)), "long name rejected");
    let g = s.display_name().as_bytes();
    vp::check(g.len() == n, "length of a long name");
    let mut same = true;
    for k in 0..n {
        same &= g[k] == t.as_bytes()[k];
    }
    vp::check(same, "long name");
    vp::cover("ok");
});

// A table of contents of `a` entries, one in eight of them with a file, by ordering numbers that are all different, all
// the same, or the same for some entries near to or far from each other.
entry!(l_toc, |a| {
    let n = a as u32;
    let way = vp::choose(6);
    let mut v = vec![nb::item(1, None, None, &(0..n).map(|k| k + 2).collect::<Vec<_>>())];
    let mut want: Vec<(u32, String)> = vec![];
    for k in 0..n {
        let mut name = String::from("s");
        for d in [100, 10, 1] {
            name.push((b'0' + (k / d % 10) as u8) as char);
        }
        let order = match way {
            0 => k,
            1 => n - k,
            2 => 7,
            3 => k % 3,
            4 => (n - k) / 20,
            _ => k * 37 % n,
        };
        if k % 8 == 0 || k + 3 >= n {
            let mut f = name.clone();
            f.push_str(".one");
            let mut p = String::from("nb/");
            p.push_str(&f);
            vp::fs_file(&p, &nb::sect(&name));
            // behind all that do not come after it
            let at = want.iter().position(|x| x.0 > order).unwrap_or(want.len());
            want.insert(at, (order, name.clone()));
        }
        name.push_str(".one");
        v.push(nb::item(k + 2, Some(order), Some(&nb::units(&name)), &[]));
    }
    vp::fs_file("nb/toc.onetoc2", &nb::toc_of(v));
    let b = must(nb::open("nb/toc.onetoc2"), "long table of contents rejected");
    let g = nb::show(b.entries());
    vp::check(g.len() == want.len(), "number of entries");
    for k in 0..g.len() {
        vp::check(g[k] == want[k].1, "entry of a long table of contents");
    }
    vp::cover("ok");
});
