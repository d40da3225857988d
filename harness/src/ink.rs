//! Ink.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::tags::runs;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::contents::*;

const DIM_X: &str = "598a6a8f-52c0-4ba0-93af-af357411a561";
const DIM_Y: &str = "b53f9f75-04e0-4498-a7ee-c30dbb5a9011";
const DIM_P: &str = "7307502d-f9f4-4e18-b3f2-2ce1b1a3610c";

fn dim(g_: &str, lo: i32, hi: i32) -> Vec<u8> {
    let mut v = g(g_).to_vec();
    v.extend_from_slice(&lo.to_le_bytes());
    v.extend_from_slice(&hi.to_le_bytes());
    v.extend_from_slice(&[0; 8]);
    v
}
fn dims(l: &[&str]) -> Vec<u8> {
    let mut v = vec![];
    for d in l {
        v.extend(dim(d, -5, 5));
    }
    v
}
/// [MS-ISF] "Multi-byte encoding of signed numbers", shortest form.
fn mb(v: &mut Vec<u8>, x: u64) {
    let mut x = x;
    while x > 0x7f {
        v.push(x as u8 & 0x7f | 0x80);
        x >>= 7;
    }
    v.push(x as u8);
}
fn smb(v: &mut Vec<u8>, x: i64) {
    mb(v, if x < 0 { (-x as u64) << 1 | 1 } else { (x as u64) << 1 })
}
pub fn path(vals: &[i64]) -> Vec<u8> {
    let mut v = vec![];
    smb(&mut v, vals.len() as i64);
    for x in vals {
        smb(&mut v, *x);
    }
    v
}
pub fn stroke0(id: Ex, props: Ex, p: &[u8]) -> Obj {
    Obj::new(id, J_STROKE).v(0x1C00340B, p).u8(0x0C00341C, 0).oid(0x20003409, props)
}
pub fn sprops0(id: Ex) -> Obj {
    Obj::new(id, J_STROKE_PROPS).u32(0x1400340C, 1).u32(0x1400340D, 2).v(0x1C00340A, &dims(&[DIM_X, DIM_Y]))
}
pub fn ink0(id: Ex, data: Ex) -> Obj {
    Obj::new(id, J_INK).oid(0x20003415, data)
}
pub fn inkdata0(id: Ex, strokes: &[Ex]) -> Obj {
    Obj::new(id, J_INK_DATA).oidv(0x24003416, strokes)
}
/// The ink of the document: place 0 on the page, 1 in an element.
pub fn ink_doc(place: u64, ink: Obj, mut more: Vec<Obj>) -> Store {
    let id = ink.id;
    more.push(ink);
    if place == 0 { one_page(page_node(0, &[id]), more) } else { in_element(&[id], more) }
}
pub fn the_ink<'a>(s: &'a onenote_parser::section::Section, place: u64) -> &'a Ink {
    if place == 0 { some(pc1(page1(s)).ink(), "page content is no ink") } else { some(content1(s).ink(), "content is no ink") }
}
fn not_nan(v: Option<u32>) -> Option<u32> {
    if let Some(v) = v {
        vp::assume(v >> 23 & 0xff != 0xff);
    }
    v
}

// The ink container.
entry!(w_ink, |place| {
    let mut b = B::pick(Obj::new(po(0, 12), J_INK), 5);
    let x = b.u32(0x14001C14);
    let y = b.u32(0x14001C15);
    let data = b.oid(0x20003415, false, po(0, 20));
    let sx = not_nan(b.u32(0x14001C46));
    let sy = not_nan(b.u32(0x14001C47));
    let (o, bad) = b.done();
    let bb = [3u32, 500, 70, 9000];
    let mut bbv = vec![];
    for v in bb {
        bbv.extend_from_slice(&v.to_le_bytes());
    }
    let st = ink_doc(
        place,
        o,
        vec![
            inkdata0(po(0, 20), &[po(0, 21)]).v(0x1C003418, &bbv),
            stroke0(po(0, 21), po(0, 22), &path(&[3, -5, 7, 100])),
            sprops0(po(0, 22)),
        ],
    );
    let r = parse(&st);
    if bad {
        return must_fail(r, "ink with a mistyped property accepted");
    }
    let s = must(r, "ink rejected");
    let k = the_ink(&s, place);
    vp::check(eqf(k.offset_horizontal(), x), "ink offset horizontal");
    vp::check(eqf(k.offset_vertical(), y), "ink offset vertical");
    vp::check(k.ink_strokes().len() == data as usize, "stroke count");
    vp::check(k.bounding_box().is_some() == data, "bounding box presence");
    if data {
        let sx = sx.map_or(1.0, f32::from_bits);
        let sy = sy.map_or(1.0, f32::from_bits);
        let p = k.ink_strokes()[0].path();
        vp::check(p.len() == 2, "point count");
        vp::check(p[0].x() == sx * 3.0 && p[1].x() == sx * -5.0, "x coordinates scaled");
        vp::check(p[0].y() == sy * 7.0 && p[1].y() == sy * 100.0, "y coordinates scaled");
        let q = k.bounding_box().unwrap();
        vp::check(q.x() == sx * 3.0 && q.y() == sy * 500.0, "bounding box position");
        vp::check(q.width() == sx * 67.0 && q.height() == sy * 8500.0, "bounding box size");
    }
    vp::cover("ok");
});

// Ink data: `n` bytes of bounding box; strokes present or not.
entry!(w_inkdata, |n| {
    let mut b = B::pick(Obj::new(po(0, 20), J_INK_DATA), 2);
    let bbv = vp::vec(n as usize);
    let st = b.oidv(0x24003416, true, &[po(0, 21), po(0, 23)]);
    let bb = b.v(0x1C003418, false, &bbv);
    let (o, bad) = b.done();
    let doc = ink_doc(
        1,
        ink0(po(0, 12), po(0, 20)),
        vec![
            o,
            stroke0(po(0, 21), po(0, 22), &path(&[3, 4])),
            stroke0(po(0, 23), po(0, 22), &path(&[8, 9])),
            sprops0(po(0, 22)),
        ],
    );
    let r = parse(&doc);
    if bad {
        return must_fail(r, "malformed ink data accepted");
    }
    let s = must(r, "ink data rejected");
    let k = the_ink(&s, 1);
    vp::check(k.offset_horizontal().is_none() && k.offset_vertical().is_none(), "no ink offsets");
    vp::check(k.ink_strokes().len() == 2 && st, "stroke count");
    vp::check(k.ink_strokes()[0].path()[0].x() == 3.0 && k.ink_strokes()[1].path()[0].x() == 8.0, "stroke order");
    vp::check(k.bounding_box().is_some() == (bb && n == 16), "bounding box presence");
    if let Some(q) = k.bounding_box() {
        let v = |i: usize| u32::from_le_bytes([bbv[4 * i], bbv[4 * i + 1], bbv[4 * i + 2], bbv[4 * i + 3]]);
        vp::check(q.x() == v(0) as f32 && q.y() == v(1) as f32, "bounding box position");
        vp::check(q.width() == v(2) as f32 - v(0) as f32, "bounding box width");
        vp::check(q.height() == v(3) as f32 - v(1) as f32, "bounding box height");
    }
    vp::cover("ok");
});

// The stroke node: bias, path, properties reference.
entry!(w_stroke, |_| {
    let mut b = B::pick(Obj::new(po(0, 21), J_STROKE), 4);
    let p = path(&[1, 2, 3, 4, 5, 6]);
    b.v(0x1C00340B, true, &p);
    let bias = b.u8(0x0C00341C, true);
    b.u32(0x14001C3B);
    b.oid(0x20003409, true, po(0, 22));
    let (o, mut bad) = b.done();
    bad |= bias.map_or(true, |v| v > 2);
    let r = parse(&ink_doc(1, ink0(po(0, 12), po(0, 20)), vec![inkdata0(po(0, 20), &[po(0, 21)]), o, sprops0(po(0, 22))]));
    if bad {
        return must_fail(r, "malformed ink stroke accepted");
    }
    let s = must(r, "ink stroke rejected");
    let k = the_ink(&s, 1);
    vp::check(k.ink_strokes().len() == 1 && k.ink_strokes()[0].path().len() == 3, "ink path");
    vp::check(k.bounding_box().is_none(), "no bounding box");
    vp::cover("ok");
});

// The properties of a stroke.
entry!(w_strokeprops, |_| {
    let mut b = B::pick(Obj::new(po(0, 22), J_STROKE_PROPS), 6);
    let tip = b.u8(0x0C003412, false);
    let tr = b.u8(0x0C003414, false);
    let h = b.u32_req(0x1400340C);
    let w = b.u32_req(0x1400340D);
    let c = b.u32(0x1400340F);
    b.v(0x1C00340A, true, &dims(&[DIM_X, DIM_Y]));
    let (o, bad) = b.done();
    let o = o.u8(0x0C003413, 9).b(0x08003411, true);
    let st = stroke0(po(0, 21), po(0, 22), &path(&[3, 4]));
    let r = parse(&ink_doc(1, ink0(po(0, 12), po(0, 20)), vec![inkdata0(po(0, 20), &[po(0, 21)]), st, o]));
    if bad {
        return must_fail(r, "malformed ink stroke properties accepted");
    }
    let s = must(r, "ink stroke properties rejected");
    let k = &the_ink(&s, 1).ink_strokes()[0];
    vp::check(eqo(k.pen_tip(), tip), "pen tip");
    vp::check(eqo(k.transparency(), tr), "transparency");
    vp::check(Some(k.height().to_bits()) == h, "stroke height");
    vp::check(Some(k.width().to_bits()) == w, "stroke width");
    vp::check(eqo(k.color(), c), "stroke colour");
    vp::cover("ok");
});

// Dimension layouts: any sequence of up to three dimensions; the values of a dimension lie together.
entry!(w_inkdims, |n| {
    let all = [DIM_X, DIM_Y, DIM_P];
    let mut l = vec![];
    for _ in 0..n {
        l.push(vp::choose(3) as usize);
    }
    let cnt = vp::choose(8) as usize;
    let vals: Vec<i64> = (0..cnt as i64).map(|i| i * 10 + 1).collect();
    let d: Vec<&str> = l.iter().map(|i| all[*i]).collect();
    let mut dv = dims(&d);
    if vp::flag() {
        // an incomplete entry at the end does not count
        dv.extend_from_slice(&[7; 31]);
    }
    let sp = Obj::new(po(0, 22), J_STROKE_PROPS).u32(0x1400340C, 1).u32(0x1400340D, 2).v(0x1C00340A, &dv);
    let st = stroke0(po(0, 21), po(0, 22), &path(&vals));
    let r = parse(&ink_doc(0, ink0(po(0, 12), po(0, 20)), vec![inkdata0(po(0, 20), &[po(0, 21)]), st, sp]));
    let xi = l.iter().position(|i| *i == 0);
    let yi = l.iter().position(|i| *i == 1);
    let (Some(xi), Some(yi)) = (xi, yi) else {
        return must_fail(r, "stroke without x or y dimension accepted");
    };
    let s = must(r, "ink stroke rejected");
    let p = the_ink(&s, 0).ink_strokes()[0].path();
    let per = cnt / l.len();
    vp::check(p.len() == per, "point count");
    for i in 0..per {
        vp::check(p[i].x() == vals[xi * per + i] as f32 && p[i].y() == vals[yi * per + i] as f32, "point");
    }
    vp::cover("ok");
});

// Reference decoder of a multi-byte signed list; None: malformed.
fn decode(b: &[u8]) -> Option<Vec<i64>> {
    let mut p = 0;
    let mut get = || -> Option<u64> {
        let mut v = 0u64;
        let mut s = 0u32;
        loop {
            if p >= b.len() || s > 63 {
                return None;
            }
            let c = b[p];
            p += 1;
            if s == 63 && c & 0x7e != 0 {
                return None;
            }
            v |= ((c & 0x7f) as u64) << s;
            s += 7;
            if c & 0x80 == 0 {
                return Some(v);
            }
        }
    };
    let n = get()? >> 1;
    let mut r = vec![];
    for _ in 0..n {
        let v = get()?;
        let m = (v >> 1) as i64;
        r.push(if v & 1 == 1 { -m } else { m });
    }
    Some(r)
}
fn path_check(b: &[u8]) {
    let w = decode(b);
    let r = parse(&ink_doc(
        1,
        ink0(po(0, 12), po(0, 20)),
        vec![inkdata0(po(0, 20), &[po(0, 21)]), stroke0(po(0, 21), po(0, 22), b), sprops0(po(0, 22))],
    ));
    let Some(w) = w else {
        return must_fail(r, "malformed ink path accepted");
    };
    let s = must(r, "ink path rejected");
    let p = the_ink(&s, 1).ink_strokes()[0].path();
    let n = w.len() / 2;
    vp::check(p.len() == n, "point count");
    for i in 0..n {
        vp::check(p[i].x() == w[i] as f32, "point x");
        vp::check(p[i].y() == w[n + i] as f32, "point y");
    }
    vp::cover("ok");
}
// `n` arbitrary bytes of path.
entry!(w_inkpath, |n| {
    let b = vp::vec(n as usize);
    path_check(&b);
});
// One long integer of `n` bytes as x.
entry!(w_inklong, |n| {
    let mut b = vec![4];
    for i in 0..n {
        let c = vp::u8();
        b.push(if i + 1 < n { c | 0x80 } else { c & 0x7f });
    }
    b.push(2);
    path_check(&b);
});

/// Run data of an embedded ink run, and its style. kind: 0 plain text, 1 line break, 2 space, 3 ink.
fn run(kind: u64, id: u32) -> (Obj, PS, [u32; 8]) {
    let st = style0(po(0, id));
    let mut p = PS::new();
    let mut f = [0; 8];
    for i in 0..8 {
        f[i] = vp::u32();
    }
    for (i, q) in [0x14001C27, 0x14001C28, 0x1400349E, 0x1400349F, 0x140034A0, 0x140034A1, 0x140034A2, 0x140034A3]
        .iter()
        .enumerate()
    {
        p.u32(*q, f[i]);
    }
    let st = match kind {
        0 => st,
        1 => st.b(0x08001E22, true).u32(0x14003457, 0x00020027),
        2 => st.b(0x08001E22, true).u32(0x14003457, 0x00020026),
        _ => st.b(0x08001E22, true),
    };
    (st, p, f)
}
// `n` runs, each plain, line break, space or ink.
entry!(w_inkruns, |n| {
    let mut rs = vec![];
    let mut want = vec![];
    let mut objs = vec![];
    let mut data = vec![];
    // as many ink data objects as ink runs, one fewer, or one more that no run uses
    let extra = vp::choose(3);
    let short = extra == 1;
    for i in 0..n as u32 {
        let k = vp::choose(4);
        let (s, p, f) = run(k, 20 + i);
        rs.push((s, p));
        if k == 3 {
            data.push(po(0, 40 + i));
            objs.push(inkdata0(po(0, 40 + i), &[po(0, 50 + i)]));
            objs.push(stroke0(po(0, 50 + i), po(0, 60), &path(&[i as i64 + 1, 0])));
        }
        if k != 0 {
            want.push((k, i, f));
        }
    }
    objs.push(sprops0(po(0, 60)));
    let inks = data.len();
    if short && inks > 0 {
        data.pop();
    }
    if extra == 2 {
        data.push(po(0, 49));
        objs.push(inkdata0(po(0, 49), &[]));
    }
    let r = parse(&runs(rs, &data, objs));
    if short && inks > 1 {
        return must_fail(r, "ink run without ink data accepted");
    }
    let s = must(r, "ink runs rejected");
    let t = some(content1(&s).rich_text(), "rich text");
    let e = t.embedded_objects();
    if short && inks == 1 {
        // no ink data at all: the ink runs are left out
        want.retain(|w| w.0 != 3);
    }
    vp::check(e.len() == want.len(), "embedded object count");
    vp::check(t.text() == if want.is_empty() { "text" } else { "" }, "text of ink paragraphs");
    for (o, (k, i, f)) in e.iter().zip(&want) {
        match o {
            EmbeddedObject::InkLineBreak => vp::check(*k == 1, "embedded object kind"),
            EmbeddedObject::InkSpace(x) => {
                vp::check(*k == 2, "embedded object kind");
                vp::check(x.width().to_bits() == f[0] && x.height().to_bits() == f[1], "ink space size");
            }
            EmbeddedObject::Ink(c) => {
                vp::check(*k == 3, "embedded object kind");
                let q = some(c.bounding_box(), "display box");
                vp::check(q.x().to_bits() == f[2] && q.y().to_bits() == f[3], "display box position");
                vp::check(q.width().to_bits() == f[4] && q.height().to_bits() == f[5], "display box size");
                let d = c.ink();
                vp::check(
                    eqf(d.offset_horizontal(), Some(f[6])) && eqf(d.offset_vertical(), Some(f[7])),
                    "embedded ink offsets",
                );
                vp::check(
                    d.ink_strokes().len() == 1 && d.ink_strokes()[0].path()[0].x() == (*i + 1) as f32,
                    "embedded ink belongs to its run",
                );
            }
        }
    }
    vp::out(e.len() as u64);
    vp::cover("ok");
});
// `n` runs, each plain, line break, space or ink, and each with or without maths; the last ones may lack data.
entry!(w_mixruns, |n| {
    let mut rs = vec![];
    let mut emb = vec![];
    let mut math = vec![];
    let mut objs = vec![];
    let mut data = vec![];
    let with = n as usize - vp::choose(if n == 2 { 3 } else { 2 }) as usize;
    for i in 0..n as u32 {
        let k = vp::choose(8);
        let (mut s, mut p, _) = run(k % 4, 20 + i);
        let cnt = vp::u32();
        p.u32(0x14003450, cnt);
        if k >= 4 {
            s = s.b(0x08003401, true);
        }
        rs.push((s, p));
        if k % 4 == 3 {
            data.push(po(0, 40 + i));
            objs.push(inkdata0(po(0, 40 + i), &[po(0, 50 + i)]));
            objs.push(stroke0(po(0, 50 + i), po(0, 60), &path(&[i as i64 + 1, 0])));
        }
        if (i as usize) < with {
            if k % 4 != 0 {
                emb.push((k % 4, i));
            }
            if k >= 4 {
                math.push(cnt);
            }
        }
    }
    objs.push(sprops0(po(0, 60)));
    let s = must(parse(&crate::tags::runs_of(rs, with, &data, objs)), "mixed runs rejected");
    let t = some(content1(&s).rich_text(), "rich text");
    vp::check(t.text_run_formatting().len() == n as usize, "run count");
    let m = t.math_inline_objects();
    vp::check(m.len() == math.len(), "maths object count");
    for (a, b) in m.iter().zip(&math) {
        vp::check(a.arg_count() == *b, "maths object belongs to its run");
    }
    let e = t.embedded_objects();
    vp::check(e.len() == emb.len(), "embedded object count");
    vp::check(t.text() == if emb.is_empty() { "text" } else { "" }, "text of ink paragraphs");
    for (o, (k, i)) in e.iter().zip(&emb) {
        match o {
            EmbeddedObject::InkLineBreak => vp::check(*k == 1, "embedded object kind"),
            EmbeddedObject::InkSpace(_) => vp::check(*k == 2, "embedded object kind"),
            EmbeddedObject::Ink(c) => {
                vp::check(*k == 3, "embedded object kind");
                let d = c.ink().ink_strokes();
                vp::check(d.len() == 1 && d[0].path()[0].x() == (*i + 1) as f32, "embedded ink belongs to its run");
            }
        }
    }
    vp::out(e.len() as u64);
    vp::cover("ok");
});
// Presence of the properties of one embedded run; `k`: 2 space, 3 ink.
entry!(w_inkrun, |k| {
    let mut b = B::pick(Obj::new(po(0, 99), 0), 8);
    let mut f = [None; 8];
    for (i, q) in [0x14001C27, 0x14001C28, 0x1400349E, 0x1400349F, 0x140034A0, 0x140034A1, 0x140034A2, 0x140034A3]
        .iter()
        .enumerate()
    {
        f[i] = if i < 2 && k == 2 { b.u32_req(*q) } else { b.u32(*q) };
    }
    let (x, bad) = b.done();
    let (st, _, _) = run(k, 20);
    let r = parse(&runs(
        vec![(st, x.ps)],
        &[po(0, 40)],
        vec![inkdata0(po(0, 40), &[po(0, 50)]), stroke0(po(0, 50), po(0, 60), &path(&[1, 2])), sprops0(po(0, 60))],
    ));
    if bad {
        return must_fail(r, "malformed embedded run accepted");
    }
    let s = must(r, "embedded run rejected");
    let e = some(content1(&s).rich_text(), "rich text").embedded_objects();
    vp::check(e.len() == 1, "embedded object count");
    match &e[0] {
        EmbeddedObject::InkSpace(x) if k == 2 => {
            vp::check(Some(x.width().to_bits()) == f[0] && Some(x.height().to_bits()) == f[1], "ink space size")
        }
        EmbeddedObject::Ink(c) if k == 3 => {
            let all = f[2].is_some() && f[3].is_some() && f[4].is_some() && f[5].is_some();
            vp::check(c.bounding_box().is_some() == all, "display box presence");
            vp::check(eqf(c.ink().offset_horizontal(), f[6]) && eqf(c.ink().offset_vertical(), f[7]), "ink offsets");
        }
        _ => vp::fail("embedded object kind"),
    }
    vp::cover("ok");
});
// Undefined embedded object types are rejected.
entry!(e_embtype, |_| {
    let v = vp::u32();
    let st = style0(po(0, 20)).b(0x08001E22, true).u32(0x14003457, v);
    let mut p = PS::new();
    p.u32(0x14001C27, 1).u32(0x14001C28, 2);
    let r = parse(&runs(vec![(st, p)], &[], vec![]));
    if v != 0x20026 && v != 0x20027 {
        return must_fail(r, "undefined embedded object type accepted");
    }
    let s = must(r, "embedded run rejected");
    let e = some(content1(&s).rich_text(), "rich text").embedded_objects();
    vp::check(e.len() == 1, "embedded object count");
    vp::check(matches!(e[0], EmbeddedObject::InkLineBreak) == (v == 0x20027), "embedded object kind");
    vp::cover("ok");
});
// Scaling a bounding box scales all of it.
entry!(w_bbscale, |_| {
    let bb = [3u32, 500, 70, 9000];
    let mut bbv = vec![];
    for v in bb {
        bbv.extend_from_slice(&v.to_le_bytes());
    }
    let s = must(
        parse(&ink_doc(0, ink0(po(0, 12), po(0, 20)), vec![inkdata0(po(0, 20), &[]).v(0x1C003418, &bbv)])),
        "ink rejected",
    );
    let f = not_nan(Some(vp::u32())).unwrap();
    let f = f32::from_bits(f);
    let q = the_ink(&s, 0).bounding_box().unwrap().scale(f);
    vp::check(q.x() == 3.0 * f && q.y() == 500.0 * f, "scaled position");
    vp::check(q.width() == 67.0 * f && q.height() == 8500.0 * f, "scaled size");
    vp::cover("ok");
});
