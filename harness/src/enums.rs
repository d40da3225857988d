//! Enumerated values, colours and bit fields: every value decodes to what it means; undefined ones
//! are rejected.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::wire::*;
use crate::{entry, eqalign, vp};
use onenote_parser::page::Page;
use onenote_parser::property::rich_text::ParagraphAlignment;

// Colour references: 0 style text colour, 1 highlight, 2 list colour.
entry!(e_colref, |k| {
    let v = vp::u32();
    let id = if k == 1 { 0x14001C0D } else { 0x14001C0C };
    let st = if k == 2 {
        let l = Obj::new(po(0, 16), J_LIST).u32(0x14001D7A, 1).v(0x1C001C1A, &[0, 0]).u32(id, v);
        one_page(page_node(0, &[po(0, 10)]), vec![
            outline0(po(0, 10), &[po(0, 11)]),
            element0(po(0, 11), &[]).oidv(0x24001C26, &[po(0, 16)]),
            l,
        ])
    } else {
        in_element(&[po(0, 12)], vec![text0(po(0, 12), po(0, 13)), style0(po(0, 13)).u32(id, v)])
    };
    let r = parse(&st);
    if v >> 24 != 0 && v >> 24 != 0xff {
        return must_fail(r, "undefined colour reference accepted");
    }
    let s = must(r, "colour reference rejected");
    let c = match k {
        0 => some(content1(&s).rich_text(), "no text").paragraph_style().font_color(),
        1 => some(content1(&s).rich_text(), "no text").paragraph_style().highlight(),
        _ => elem1(outline1(page1(&s))).list_contents()[0].font_color(),
    };
    vp::check(eqcolref(c, Some(v)), "colour reference");
    vp::cover("ok");
});

// Layout alignments: 2*place + which. place: 0 image, 1 outline, 2 title, 3 text, 4 table; which: 0 in
// parent, 1 self.
entry!(e_align, |k| {
    let v = vp::u32();
    let id = if k & 1 == 0 { 0x14001C3E } else { 0x14001C84 };
    let st = match k >> 1 {
        0 => in_element(&[po(0, 12)], vec![Obj::new(po(0, 12), J_IMAGE).u32(id, v)]),
        1 => one_page(page_node(0, &[po(0, 10)]), vec![outline0(po(0, 10), &[]).u32(id, v)]),
        2 => one_page(
            Obj::new(po(0, 3), J_PAGE).oidv(0x24001D5F, &[po(0, 20)]),
            vec![
                Obj::new(po(0, 20), J_TITLE)
                    .u32(0x14001D7A, 1)
                    .oidv(0x24001C20, &[])
                    .u32(0x14001C14, 0)
                    .u32(0x14001C15, 0)
                    .u32(id, v),
            ],
        ),
        3 => in_element(&[po(0, 12)], vec![text0(po(0, 12), po(0, 13)).u32(id, v), style0(po(0, 13))]),
        _ => in_element(&[po(0, 12)], vec![crate::term::table0(po(0, 12), &[]).u32(id, v)]),
    };
    let r = parse(&st);
    if !align_ok(Some(v)) {
        return must_fail(r, "undefined alignment accepted");
    }
    let s = must(r, "alignment rejected");
    let p = page1(&s);
    let none = || vp::fail("other alignment");
    macro_rules! both {
        ($x:expr) => {{
            let x = $x;
            let (a, b) = (x.layout_alignment_in_parent(), x.layout_alignment_self());
            let (a, b) = if k & 1 == 0 { (a, b) } else { (b, a) };
            if b.is_some() {
                none();
            }
            vp::check(eqalign!(a, Some(v)), "alignment");
        }};
    }
    match k >> 1 {
        0 => both!(some(content1(&s).image(), "no image")),
        1 => {
            let o = outline1(p);
            let (a, b) = (o.alignment_in_parent(), o.alignment_self());
            let (a, b) = if k & 1 == 0 { (a, b) } else { (b, a) };
            if b.is_some() {
                none();
            }
            vp::check(eqalign!(a, Some(v)), "alignment");
        }
        2 => both!(some(p.title(), "no title")),
        3 => both!(some(content1(&s).rich_text(), "no text")),
        _ => both!(some(content1(&s).table(), "no table")),
    }
    vp::cover("ok");
});

// Character sets.
entry!(e_charset, |_| {
    let v = vp::u8();
    let r = parse(&in_element(&[po(0, 12)], vec![text0(po(0, 12), po(0, 13)), style0(po(0, 13)).u8(0x0C001D01, v)]));
    let all: [(u8, &str); 19] = [
        (0, "Ansi"),
        (1, "Default"),
        (2, "Symbol"),
        (77, "Mac"),
        (128, "ShiftJis"),
        (129, "Hangul"),
        (130, "Johab"),
        (134, "Gb2312"),
        (136, "ChineseBig5"),
        (161, "Greek"),
        (162, "Turkish"),
        (163, "Vietnamese"),
        (177, "Hebrew"),
        (178, "Arabic"),
        (186, "Baltic"),
        (204, "Russian"),
        (222, "Thai"),
        (238, "EastEurope"),
        (255, "Oem"),
    ];
    let mut known = false;
    for (n, _) in all {
        known |= n == v;
    }
    if !known {
        return must_fail(r, "undefined character set accepted");
    }
    let s = must(r, "character set rejected");
    let c = some(content1(&s).rich_text(), "no text").paragraph_style().charset();
    let Some(c) = c else { vp::fail("character set missing") };
    let mut ok = false;
    for (n, t) in all {
        if is(&c, t) {
            ok |= n == v;
        }
    }
    vp::check(ok, "character set");
    vp::cover("ok");
});

// Media type of an embedded file.
entry!(e_media, |_| {
    let v = vp::u32();
    let o = Obj::new(po(0, 12), J_FILE)
        .u32(0x14001D7A, 1)
        .oid(0x20001D9B, po(0, 13))
        .s(0x1C001D9C, "f")
        .u32(0x14001D24, v);
    let mut st = in_element(&[po(0, 12)], vec![o, Obj::new(po(0, 13), J_FILE_CONTAINER).with_blob(ex(0x60, 1))]);
    st.blobs.push((ex(0x60, 1), vec![1]));
    let r = parse(&st);
    if v != 1 && v != 2 {
        return must_fail(r, "undefined media type accepted");
    }
    let s = must(r, "media type rejected");
    let f = some(content1(&s).embedded_file(), "no file");
    vp::check(is(f.file_type(), "Audio") == (v == 1), "audio");
    vp::check(is(f.file_type(), "Video") == (v == 2), "video");
    vp::cover("ok");
});

// Paragraph alignment: 0 of a paragraph, 1 of its style.
entry!(e_para, |k| {
    let v = vp::u8();
    let (t, y) = (text0(po(0, 12), po(0, 13)), style0(po(0, 13)));
    let (t, y) = if k == 0 { (t.u8(0x0C003477, v), y) } else { (t, y.u8(0x0C003477, v)) };
    let s = must(parse(&in_element(&[po(0, 12)], vec![t, y])), "paragraph alignment rejected");
    let t = some(content1(&s).rich_text(), "no text");
    let a = if k == 0 {
        vp::check(t.paragraph_style().paragraph_alignment().is_none(), "style alignment");
        t.paragraph_alignment()
    } else {
        vp::check(t.paragraph_alignment() == ParagraphAlignment::Left, "default alignment");
        match t.paragraph_style().paragraph_alignment() {
            Some(a) => a,
            None => vp::fail("style alignment missing"),
        }
    };
    vp::check((a == ParagraphAlignment::Left) == (v == 0), "left");
    vp::check((a == ParagraphAlignment::Center) == (v == 1), "center");
    vp::check((a == ParagraphAlignment::Right) == (v == 2), "right");
    vp::check((a == ParagraphAlignment::Unknown) == (v > 2), "unknown");
    vp::cover("ok");
});

// Page size: 0..=15 are defined; the page's own values are unaffected.
entry!(e_pagesize, |_| {
    let v = vp::u32();
    let h = vp::u32();
    let r = parse(&one_page(page_node(0, &[]).u32(0x14001C8B, v).u32(0x14001C02, h), vec![]));
    if v > 15 {
        return must_fail(r, "undefined page size accepted");
    }
    let s = must(r, "page size rejected");
    vp::check(eqf(page1(&s).height(), Some(h)), "page height");
    vp::cover("ok");
});

// List format: `n` bytes; UTF-16 units, the first of which is the length.
entry!(e_list, |n| {
    let d = vp::vec(n as usize);
    let l = Obj::new(po(0, 16), J_LIST).u32(0x14001D7A, 1).v(0x1C001C1A, &d);
    let r = parse(&one_page(page_node(0, &[po(0, 10)]), vec![
        outline0(po(0, 10), &[po(0, 11)]),
        element0(po(0, 11), &[]).oidv(0x24001C26, &[po(0, 16)]),
        l,
    ]));
    let s = must(r, "list format rejected");
    let f = elem1(outline1(page1(&s))).list_contents()[0].list_format();
    let mut want = vec![];
    let u: Vec<u16> = d.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let mut i = 1;
    while i < u.len() {
        let c = u[i] as u32;
        i += 1;
        if c >> 11 != 0x1b {
            want.push(c);
        } else if c >> 10 == 0x36 && i < u.len() && u[i] >> 10 == 0x37 {
            want.push(0x10000 + ((c & 0x3ff) << 10 | (u[i] & 0x3ff) as u32));
            i += 1;
        } else {
            want.push(0xfffd);
        }
    }
    vp::check(f.len() == want.len(), "list format length");
    for i in 0..want.len() {
        vp::check(f[i] as u32 == want[i], "list format character");
    }
    vp::cover("ok");
});

/// An outline with some shape; returns its objects and the text a title heuristic would see.
fn shaped(base: u32, k: u64) -> (Vec<Obj>, Option<&'static str>) {
    let o = |items: &[Ex]| outline0(po(0, base), items);
    let e = |c: &[Ex]| element0(po(0, base + 1), c);
    let t = |id: u32, s: Option<&str>| {
        let t = text0(po(0, id), po(0, 9));
        match s {
            Some(s) => t.s(0x1C001C22, s),
            None => t,
        }
    };
    let name: &'static str = ["t10", "t20", "t30", "t40"][(base / 10 - 1) as usize];
    match k {
        // text
        0 => (vec![o(&[po(0, base + 1)]), e(&[po(0, base + 2)]), t(base + 2, Some(name))], Some(name)),
        // no items
        1 => (vec![o(&[])], None),
        // element without contents
        2 => (vec![o(&[po(0, base + 1)]), e(&[])], None),
        // empty text
        3 => (vec![o(&[po(0, base + 1)]), e(&[po(0, base + 2)]), t(base + 2, None)], None),
        // image first, text second
        4 => (
            vec![o(&[po(0, base + 1)]), e(&[po(0, base + 3), po(0, base + 2)]), t(base + 2, Some(name)),
                 Obj::new(po(0, base + 3), J_IMAGE)],
            None,
        ),
        // empty element first, text in the second
        5 => (
            vec![o(&[po(0, base + 3), po(0, base + 1)]), e(&[po(0, base + 2)]), t(base + 2, Some(name)),
                 element0(po(0, base + 3), &[])],
            None,
        ),
        // group first
        _ => (
            vec![o(&[po(0, base + 3)]), e(&[po(0, base + 2)]), t(base + 2, Some(name)),
                 Obj::new(po(0, base + 3), J_GROUP).u32(0x14001D7A, 1).u8(0x0C001C03, 1).oidv(0x24001C20, &[po(0, base + 1)])],
            None,
        ),
    }
}
// The title text: first outline of the title if it starts with text, else first such page outline.
entry!(x_title, |mode| {
    let mut page = Obj::new(po(0, 3), J_PAGE);
    let mut objs = vec![style0(po(0, 9))];
    let mut want = None;
    // title: absent, without outlines, one outline of any shape, two outlines
    let tk = vp::choose(if mode == 0 { 9 } else { 3 });
    if tk > 0 {
        let mut ids = vec![];
        if tk >= 2 {
            let k = if mode == 0 { tk - 2 } else { 3 };
            let (o, w) = shaped(10, k);
            objs.extend(o);
            ids.push(po(0, 10));
            want = w;
            if vp::flag() {
                let (o, _) = shaped(20, 0);
                objs.extend(o);
                ids.push(po(0, 20));
            }
        }
        page = page.oidv(0x24001D5F, &[po(0, 50)]);
        objs.push(
            Obj::new(po(0, 50), J_TITLE).u32(0x14001D7A, 1).oidv(0x24001C20, &ids).u32(0x14001C14, 0).u32(0x14001C15, 0),
        );
    }
    let mut ids = vec![];
    if vp::flag() {
        ids.push(po(0, 60));
        objs.push(Obj::new(po(0, 60), J_IMAGE));
    }
    let n = if mode == 0 { 1 } else { 2 };
    for i in 0..n {
        let (o, w) = shaped(30 + 10 * i, vp::choose(7));
        objs.extend(o);
        ids.push(po(0, 30 + 10 * i));
        if want.is_none() {
            want = w;
        }
    }
    let page = page.oidv(0x24001C20, &ids);
    let s = must(parse(&one_page(page, objs)), "page rejected");
    let p: &Page = page1(&s);
    vp::check(p.contents().len() == ids.len(), "page contents");
    vp::check(p.title_text() == want, "title text");
    vp::cover("ok");
});

// A title (`a` % 2: a title, a page content) of a few arbitrary characters, as UTF-16 or (2, 3) in the 8-bit form; another text follows.
entry!(x_titletext, |a| {
    let b = vp::vec(if a < 2 { 6 } else { 3 });
    let (mut t, _) = shaped(10, 3);
    let k = t.len() - 1;
    t[k] = text0(po(0, 12), po(0, 9)).v(if a < 2 { 0x1C001C22 } else { 0x1C003498 }, &b);
    let (next, w) = shaped(20, 0);
    let mut page = Obj::new(po(0, 3), J_PAGE);
    let mut objs = vec![style0(po(0, 9))];
    objs.extend(t);
    objs.extend(next);
    if a % 2 == 0 {
        page = page.oidv(0x24001D5F, &[po(0, 50)]).oidv(0x24001C20, &[po(0, 20)]);
        objs.push(Obj::new(po(0, 50), J_TITLE).u32(0x14001D7A, 1).oidv(0x24001C20, &[po(0, 10)]).u32(0x14001C14, 0).u32(0x14001C15, 0));
    } else {
        page = page.oidv(0x24001C20, &[po(0, 10), po(0, 20)]);
    }
    let r = parse(&one_page(page, objs));
    let text = if a < 2 { crate::text::utf16(&b) } else { Some(b.iter().map(|c| *c as u32).collect()) };
    let Some(text) = text else { return must_fail(r, "ill-formed title accepted") };
    let s = must(r, "title rejected");
    let got = some(page1(&s).title_text(), "no title text");
    let want = if text.is_empty() { w.unwrap().as_bytes().to_vec() } else { crate::text::utf8(&text) };
    vp::check(crate::text::eqb(got.as_bytes(), &want), "title text");
    vp::cover("ok");
});
