//! Every value stored for an element is the value its accessor returns (and absent ones are absent).
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::{eqalign, vp};
use onenote_parser::contents::*;
use onenote_parser::page::*;
use onenote_parser::property::rich_text::ParagraphAlignment;

const LAST_MOD: u32 = 0x14001D7A;

#[macro_export]
macro_rules! entry {
    ($name:ident, $body:expr) => {
        #[unsafe(no_mangle)]
        pub extern "C" fn $name(arg: u64) {
            let f: fn(u64) = $body;
            f(arg)
        }
    };
}


/// Minimal valid objects.
pub fn outline0(id: Ex, items: &[Ex]) -> Obj {
    Obj::new(id, J_OUTLINE).u32(LAST_MOD, 1).oidv(0x24001C20, items).u8(0x0C001C03, 1).v(0x1C001C12, &[0, 0, 0, 0])
}
pub fn element0(id: Ex, contents: &[Ex]) -> Obj {
    Obj::new(id, J_ELEMENT)
        .u32(0x14001D09, 1)
        .u32(LAST_MOD, 1)
        .u8(0x0C001C03, 1)
        .oidv(0x24001C1F, contents)
        .oid(0x20001D78, ex(0x77, 1))
        .oid(0x20001D79, ex(0x77, 1))
}
pub fn style0(id: Ex) -> Obj {
    Obj::new(id, J_STYLE)
}
pub fn text0(id: Ex, style: Ex) -> Obj {
    Obj::new(id, J_TEXT).u32(LAST_MOD, 1).oid(0x2000342C, style)
}
/// Page content -> outline(10) -> element(11) -> the given contents.
pub fn in_element(contents: &[Ex], mut more: Vec<Obj>) -> Store {
    let mut v = vec![outline0(po(0, 10), &[po(0, 11)]), element0(po(0, 11), contents)];
    v.append(&mut more);
    one_page(page_node(0, &[po(0, 10)]), v)
}
pub fn page1(s: &onenote_parser::section::Section) -> &Page {
    vp::check(s.page_series().len() == 1, "page series count");
    vp::check(s.page_series()[0].pages().len() == 1, "page count");
    &s.page_series()[0].pages()[0]
}
pub fn pc1(p: &Page) -> &PageContent {
    vp::check(p.contents().len() == 1, "page content count");
    &p.contents()[0]
}
pub fn outline1(p: &Page) -> &Outline {
    match pc1(p).outline() {
        Some(o) => o,
        None => vp::fail("page content is not the outline"),
    }
}
pub fn elem1(o: &Outline) -> &OutlineElement {
    vp::check(o.items().len() == 1, "outline item count");
    match o.items()[0].element() {
        Some(e) => e,
        None => vp::fail("outline item is not the element"),
    }
}
pub fn content1(s: &onenote_parser::section::Section) -> &Content {
    let e = elem1(outline1(page1(s)));
    vp::check(e.contents().len() == 1, "element content count");
    &e.contents()[0]
}
pub fn some<'a, T: ?Sized>(o: Option<&'a T>, id: &str) -> &'a T {
    match o {
        Some(v) => v,
        None => vp::fail(id),
    }
}

entry!(w_page, |_| {
    let mut b = B::pick(Obj::new(po(0, 3), J_PAGE), 4);
    let author = b.s(0x1C001D75, false);
    let height = b.u32(0x14001C02);
    let has_c = b.oidv(0x24001C20, false, &[po(0, 10)]);
    let has_t = b.oidv(0x24001D5F, false, &[po(0, 20)]);
    let (page, bad) = b.done();
    let page = page.u32(0x14001C01, vp::u32());
    let title = Obj::new(po(0, 20), J_TITLE)
        .u32(LAST_MOD, 1)
        .oidv(0x24001C20, &[])
        .u32(0x14001C14, 0)
        .u32(0x14001C15, 0);
    let r = parse(&one_page(page, vec![outline0(po(0, 10), &[]), title]));
    if bad {
        return must_fail(r, "page with a mistyped property accepted");
    }
    let s = must(r, "page rejected");
    let p = page1(&s);
    vp::check(p.author() == author, "page author");
    vp::check(eqf(p.height(), height), "page height");
    vp::check(p.contents().len() == has_c as usize, "page contents");
    vp::check(p.title().is_some() == has_t, "page title");
    vp::cover("ok");
});

entry!(w_pagemeta, |_| {
    let mut b = B::pick(Obj::new(po(0, 2), J_PAGE_META), 4);
    let lvl = b.u32(0x14001DFF);
    let g = vp::vec(16);
    b.v(0x1C001C30, true, &g);
    b.s(0x1C001CF3, true);
    b.u64(0x18001C65, true);
    let (meta, bad) = b.done();
    let mut s = section(section_meta(), vec![series(so(3), &[page_cell(0)])]);
    let mut objs = page_objs(0, page_node(0, &[]), vec![]);
    objs[1] = meta;
    s.add_space(page_cell(0), 0x30, &page_roots(0), objs);
    let r = parse(&s);
    if bad {
        return must_fail(r, "page metadata without a mandatory property accepted");
    }
    let s = must(r, "page rejected");
    vp::check(page1(&s).level() == lvl.unwrap_or(0) as i32, "page level");
    vp::cover("ok");
});

entry!(w_title, |_| {
    let mut b = B::pick(Obj::new(po(0, 20), J_TITLE), 6);
    let x = b.u32_req(0x14001C14);
    let y = b.u32_req(0x14001C15);
    let a1 = b.al(0x14001C3E, 0);
    let a2 = b.al(0x14001C84, 1);
    b.u32_req(LAST_MOD);
    b.oidv(0x24001C20, true, &[po(0, 21), po(0, 22)]);
    let (t, bad) = b.done();
    let page = Obj::new(po(0, 3), J_PAGE).oidv(0x24001D5F, &[po(0, 20)]);
    let r = parse(&one_page(page, vec![t, outline0(po(0, 21), &[]), outline0(po(0, 22), &[])]));
    if bad {
        return must_fail(r, "title without a mandatory property accepted");
    }
    let s = must(r, "title rejected");
    let t = some(page1(&s).title(), "title missing");
    vp::check(t.contents().len() == 2, "title contents");
    vp::check(Some(t.offset_horizontal().to_bits()) == x, "title offset horizontal");
    vp::check(Some(t.offset_vertical().to_bits()) == y, "title offset vertical");
    vp::check(eqalign!(t.layout_alignment_in_parent(), a1), "title alignment in parent");
    vp::check(eqalign!(t.layout_alignment_self(), a2), "title alignment self");
    vp::cover("ok");
});

entry!(w_section, |_| {
    let mut b = B::pick(Obj::new(so(2), J_SECTION_META), 4);
    let name = b.s(0x1C00349B, false);
    let col = b.u32(0x14001CBE);
    b.u32_req(0x14001D82);
    b.u32_req(0x1400348B);
    let (m, bad) = b.done();
    let r = parse(&section(m, vec![]));
    if bad {
        return must_fail(r, "section without a mandatory property accepted");
    }
    let s = must(r, "section rejected");
    vp::check(s.display_name() == name.unwrap_or("a"), "section display name");
    vp::check(eqcol(s.color(), col), "section colour");
    vp::check(s.page_series().is_empty(), "section pages");
    vp::cover("ok");
});

entry!(w_sectionnode, |_| {
    let mut b = B::pick(Obj::new(so(1), J_SECTION), 3);
    let g = vp::vec(16);
    b.v(0x1C001C30, true, &g);
    let has = b.oidv(0x24001C20, false, &[so(3)]);
    b.u64(0x18001C65, true);
    let (n, bad) = b.done();
    let mut st = section(section_meta(), vec![series(so(3), &[])]);
    st.groups[1].objs[0] = n;
    let r = parse(&st);
    if bad {
        return must_fail(r, "section node without a mandatory property accepted");
    }
    let s = must(r, "section rejected");
    vp::check(s.page_series().len() == has as usize, "page series");
    vp::cover("ok");
});

entry!(w_series, |_| {
    let mut b = B::pick(Obj::new(so(3), J_SERIES), 3);
    let g = vp::vec(16);
    b.v(0x1C001C30, true, &g);
    b.u64(0x18001C65, false);
    let st = {
        // pages, possibly absent
        b.o.ps.u32(0x2C001D63, 1);
        b.o.addcell(page_cell(0));
        b.oidv(0x24003442, false, &[so(9)]);
        b
    };
    let (n, bad) = st.done();
    let mut st = section(section_meta(), vec![n]);
    st.add_space(page_cell(0), 0x30, &page_roots(0), page_objs(0, page_node(0, &[]), vec![]));
    let r = parse(&st);
    if bad {
        return must_fail(r, "page series without a mandatory property accepted");
    }
    let s = must(r, "page series rejected");
    page1(&s);
    vp::cover("ok");
});

entry!(w_outline, |_| {
    let mut b = B::pick(Obj::new(po(0, 10), J_OUTLINE), 14);
    b.u32_req(LAST_MOD);
    let has = b.oidv(0x24001C20, false, &[po(0, 11)]);
    let lvl = b.u8(0x0C001C03, true);
    let ls = b.u32(0x14001CCB);
    let ind = b.floats(0x1C001C12, true, 2);
    let a1 = b.al(0x14001C3E, 0);
    let a2 = b.al(0x14001C84, 1);
    let mh = b.u32(0x14001C1C);
    let mw = b.u32(0x14001C1B);
    let rw = b.u32(0x14001CDB);
    let mo = b.u32(0x14001CEC);
    let set = b.b(0x08001CBD);
    let x = b.u32(0x14001C14);
    let y = b.u32(0x14001C15);
    let (o, bad) = b.done();
    let r = parse(&one_page(page_node(0, &[po(0, 10)]), vec![o, element0(po(0, 11), &[])]));
    if bad {
        return must_fail(r, "outline without a mandatory property accepted");
    }
    let s = must(r, "outline rejected");
    let o = outline1(page1(&s));
    vp::check(o.items().len() == has as usize, "outline items");
    vp::check(Some(o.child_level()) == lvl, "outline child level");
    vp::check(eqf(o.list_spacing(), ls), "outline list spacing");
    vp::check(eqfs(o.indents(), &ind.unwrap()), "outline indents");
    vp::check(eqalign!(o.alignment_in_parent(), a1), "outline alignment in parent");
    vp::check(eqalign!(o.alignment_self(), a2), "outline alignment self");
    vp::check(eqf(o.layout_max_height(), mh), "outline max height");
    vp::check(eqf(o.layout_max_width(), mw), "outline max width");
    vp::check(eqf(o.layout_reserved_width(), rw), "outline reserved width");
    vp::check(eqf(o.layout_minimum_outline_width(), mo), "outline minimum width");
    vp::check(o.is_layout_size_set_by_user() == set.unwrap_or(false), "outline size set by user");
    vp::check(eqf(o.offset_horizontal(), x), "outline offset horizontal");
    vp::check(eqf(o.offset_vertical(), y), "outline offset vertical");
    vp::cover("ok");
});

entry!(w_group, |_| {
    let mut b = B::pick(Obj::new(po(0, 12), J_GROUP), 3);
    b.u32_req(LAST_MOD);
    let has = b.oidv(0x24001C20, false, &[po(0, 11)]);
    let lvl = b.u8(0x0C001C03, true);
    let (o, bad) = b.done();
    let r = parse(&one_page(
        page_node(0, &[po(0, 10)]),
        vec![outline0(po(0, 10), &[po(0, 12)]), o, element0(po(0, 11), &[])],
    ));
    if bad {
        return must_fail(r, "outline group without a mandatory property accepted");
    }
    let s = must(r, "outline group rejected");
    let o = outline1(page1(&s));
    vp::check(o.items().len() == 1, "outline items");
    match &o.items()[0] {
        OutlineItem::Group(g) => {
            vp::check(Some(g.child_level()) == lvl, "group child level");
            vp::check(g.outlines().len() == has as usize, "group items");
        }
        _ => vp::fail("outline group expected"),
    }
    vp::check(o.items()[0].element().is_none(), "group is no element");
    vp::cover("ok");
});

entry!(w_element, |_| {
    let mut b = B::pick(Obj::new(po(0, 11), J_ELEMENT), 9);
    b.u32_req(0x14001D09);
    b.u32_req(LAST_MOD);
    let ch = b.oidv(0x24001C20, false, &[po(0, 13)]);
    let lvl = b.u8(0x0C001C03, true);
    let co = b.oidv(0x24001C1F, false, &[po(0, 14), po(0, 15)]);
    let li = b.oidv(0x24001C26, false, &[po(0, 16)]);
    let ls = b.u32(0x14001CCB);
    b.oid(0x20001D78, true, ex(0x77, 1));
    b.oid(0x20001D79, true, ex(0x77, 2));
    let (o, bad) = b.done();
    let list = Obj::new(po(0, 16), J_LIST).u32(LAST_MOD, 1).v(0x1C001C1A, &[1, 0, b'x', 0]);
    let r = parse(&one_page(
        page_node(0, &[po(0, 10)]),
        vec![
            outline0(po(0, 10), &[po(0, 11)]),
            o,
            element0(po(0, 13), &[]),
            Obj::new(po(0, 14), J_IMAGE),
            Obj::new(po(0, 15), J_INK),
            list,
        ],
    ));
    if bad {
        return must_fail(r, "outline element without a mandatory property accepted");
    }
    let s = must(r, "outline element rejected");
    let e = elem1(outline1(page1(&s)));
    vp::check(e.children().len() == ch as usize, "element children");
    vp::check(Some(e.child_level()) == lvl, "element child level");
    vp::check(e.contents().len() == 2 * co as usize, "element contents");
    if co {
        vp::check(e.contents()[0].image().is_some() && e.contents()[0].ink().is_none(), "first content");
        vp::check(e.contents()[1].ink().is_some() && e.contents()[1].image().is_none(), "second content");
    }
    vp::check(e.list_contents().len() == li as usize, "element list contents");
    vp::check(eqf(e.list_spacing(), ls), "element list spacing");
    vp::cover("ok");
});

fn pa(v: Option<u8>) -> Option<ParagraphAlignment> {
    v.map(|v| match v {
        0 => ParagraphAlignment::Left,
        1 => ParagraphAlignment::Center,
        2 => ParagraphAlignment::Right,
        _ => ParagraphAlignment::Unknown,
    })
}

entry!(w_text, |_| {
    let mut b = B::pick(Obj::new(po(0, 12), J_TEXT), 11);
    b.u32_req(LAST_MOD);
    b.oid(0x2000342C, true, po(0, 13));
    let fmt = b.oidv(0x24001E13, false, &[po(0, 14), po(0, 15)]);
    let i = [vp::u32(), vp::u32()];
    let mut ib = i[0].to_le_bytes().to_vec();
    ib.extend_from_slice(&i[1].to_le_bytes());
    let idx = b.v(0x1C001E12, false, &ib);
    let text = b.s(0x1C001C22, false);
    let before = b.u32(0x1400342E);
    let after = b.u32(0x1400342F);
    let exact = b.u32(0x14003430);
    let al = b.small8(0x0C003477, 4);
    let a1 = b.al(0x14001C3E, 0);
    let a2 = b.al(0x14001C84, 1);
    let (o, bad) = b.done();
    let mut st = vec![o];
    for (n, w) in [(13u32, "s13"), (14, "s14"), (15, "s15")] {
        st.push(style0(po(0, n)).s(0x1C00345A, w));
    }
    let r = parse(&in_element(&[po(0, 12)], st));
    if bad {
        return must_fail(r, "rich text without a mandatory property accepted");
    }
    let s = must(r, "rich text rejected");
    let t = some(content1(&s).rich_text(), "content is no rich text");
    vp::check(t.text() == text.unwrap_or(""), "text");
    vp::check(t.paragraph_style().style_id() == Some("s13"), "paragraph style");
    let f = t.text_run_formatting();
    vp::check(f.len() == 2 * fmt as usize, "text run formatting count");
    if fmt {
        vp::check(f[0].style_id() == Some("s14"), "first run style");
        vp::check(f[1].style_id() == Some("s15"), "second run style");
    }
    if idx {
        vp::check(t.text_run_indices().len() == 2, "run index count");
        vp::check(t.text_run_indices()[0] == i[0], "first run index");
        vp::check(t.text_run_indices()[1] == i[1], "second run index");
    } else {
        vp::check(t.text_run_indices().is_empty(), "no run indices");
    }
    vp::check(t.paragraph_space_before().to_bits() == before.unwrap_or(0), "space before");
    vp::check(t.paragraph_space_after().to_bits() == after.unwrap_or(0), "space after");
    vp::check(eqf(t.paragraph_line_spacing_exact(), exact), "line spacing");
    vp::check(t.paragraph_alignment() == pa(al).unwrap_or(ParagraphAlignment::Left), "paragraph alignment");
    vp::check(eqalign!(t.layout_alignment_in_parent(), a1), "text alignment in parent");
    vp::check(eqalign!(t.layout_alignment_self(), a2), "text alignment self");
    vp::check(t.note_tags().is_empty(), "no note tags");
    vp::check(t.embedded_objects().is_empty() && t.math_inline_objects().is_empty(), "no embedded objects");
    vp::cover("ok");
});

entry!(w_style, |which| {
    let mut b = B::pick(style0(po(0, 13)), 20);
    let cs = b.go_charset();
    let bold = b.b(0x08001C04);
    let italic = b.b(0x08001C05);
    let under = b.b(0x08001C06);
    let strike = b.b(0x08001C07);
    let sup = b.b(0x08001C08);
    let sub = b.b(0x08001C09);
    let font = b.s(0x1C001C0A, false);
    let size = b.u16(0x10001C0B, false);
    let col = b.cref(0x14001C0C);
    let hi = b.cref(0x14001C0D);
    let next = b.s(0x1C00348A, false);
    let id = b.s(0x1C00345A, false);
    let al = b.small8(0x0C003477, 2);
    let before = b.u32(0x1400342E);
    let after = b.u32(0x1400342F);
    let exact = b.u32(0x14003430);
    let lang = b.u32(0x14001C3B);
    let math = b.b(0x08003401);
    let link = b.b(0x08001E14);
    let (o, bad) = b.done();
    // which = 0: the paragraph's style, 1: a text run's style
    let text = if which == 0 {
        text0(po(0, 12), po(0, 13))
    } else {
        text0(po(0, 12), po(0, 14)).oidv(0x24001E13, &[po(0, 13)])
    };
    let r = parse(&in_element(&[po(0, 12)], vec![text, o, style0(po(0, 14))]));
    if bad {
        return must_fail(r, "style with a mistyped property accepted");
    }
    let s = must(r, "style rejected");
    let t = some(content1(&s).rich_text(), "content is no rich text");
    vp::check(t.text_run_formatting().len() == which as usize, "run style count");
    let p = if which == 0 { t.paragraph_style() } else { &t.text_run_formatting()[0] };
    vp::check(p.charset().is_some() == cs && (!cs || is(&p.charset().unwrap(), "Greek")), "charset");
    vp::check(p.bold() == bold.unwrap_or(false), "bold");
    vp::check(p.italic() == italic.unwrap_or(false), "italic");
    vp::check(p.underline() == under.unwrap_or(false), "underline");
    vp::check(p.strikethrough() == strike.unwrap_or(false), "strikethrough");
    vp::check(p.superscript() == sup.unwrap_or(false), "superscript");
    vp::check(p.subscript() == sub.unwrap_or(false), "subscript");
    vp::check(p.font() == font, "style font");
    vp::check(eqo(p.font_size(), size), "style font size");
    vp::check(eqcolref(p.font_color(), col), "style font colour");
    vp::check(eqcolref(p.highlight(), hi), "style highlight");
    vp::check(p.next_style() == next, "next style");
    vp::check(p.style_id() == id, "style id");
    vp::check(eqo(p.paragraph_alignment(), pa(al)), "style paragraph alignment");
    vp::check(eqf(p.paragraph_space_before(), before), "style space before");
    vp::check(eqf(p.paragraph_space_after(), after), "style space after");
    vp::check(eqf(p.paragraph_line_spacing_exact(), exact), "style line spacing");
    vp::check(eqo(p.language_code(), lang), "style language");
    vp::check(p.math_formatting() == math.unwrap_or(false), "math formatting");
    vp::check(p.hyperlink() == link.unwrap_or(false), "hyperlink");
    vp::cover("ok");
});

impl B {
    fn go_charset(&mut self) -> bool {
        // "Greek"; every value: see `enums`
        self.small8(0x0C001D01, 0).map(|_| {
            let n = self.o.ps.vals.0.len();
            self.o.ps.vals.0[n - 1] = 161;
        })
        .is_some()
    }
}

pub fn cell0(id: Ex, elems: &[Ex]) -> Obj {
    Obj::new(id, J_CELL).oidv(0x24001C20, elems).v(0x1C001C12, &[0, 0, 0, 0])
}

entry!(w_table, |_| {
    let mut b = B::pick(Obj::new(po(0, 12), J_TABLE), 9);
    b.u32_req(LAST_MOD);
    b.oidv(0x24001C20, true, &[po(0, 13), po(0, 14)]);
    let rows = b.u32_req(0x14001D57);
    let cols = b.u32_req(0x14001D58);
    let lk = vp::bytes::<3>();
    let locked = b.v(0x1C001D7D, false, &lk);
    let w = [vp::u32(), vp::u32()];
    let mut wb = vec![2u8];
    wb.extend_from_slice(&w[0].to_le_bytes());
    wb.extend_from_slice(&w[1].to_le_bytes());
    let widths = b.v(0x1C001D66, false, &wb);
    let borders = b.b(0x08001D5E);
    let a1 = b.al(0x14001C3E, 0);
    let a2 = b.al(0x14001C84, 1);
    let (o, bad) = b.done();
    let row = |n| Obj::new(po(0, n), J_ROW).oidv(0x24001C20, if n == 13 { &[] } else { &[Ex { g: [0x40; 16], n: 15, form: 0 }] });
    let r = parse(&in_element(&[po(0, 12)], vec![o, row(13), row(14), cell0(po(0, 15), &[])]));
    if bad {
        return must_fail(r, "table without a mandatory property accepted");
    }
    let s = must(r, "table rejected");
    let t = some(content1(&s).table(), "content is no table");
    vp::check(Some(t.rows()) == rows, "table rows");
    vp::check(Some(t.cols()) == cols, "table columns");
    vp::check(t.contents().len() == 2, "table contents");
    vp::check(t.contents()[0].contents().is_empty() && t.contents()[1].contents().len() == 1, "table row order");
    vp::check(if locked { t.cols_locked() == &lk[1..] } else { t.cols_locked().is_empty() }, "locked columns");
    vp::check(eqfs(t.col_widths(), if widths { &w } else { &[] }), "column widths");
    vp::check(t.borders_visible() == borders.unwrap_or(true), "borders visible");
    vp::check(eqalign!(t.layout_alignment_in_parent(), a1), "table alignment in parent");
    vp::check(eqalign!(t.layout_alignment_self(), a2), "table alignment self");
    vp::check(t.note_tags().is_empty(), "no note tags");
    vp::cover("ok");
});

entry!(w_cell, |_| {
    let mut b = B::pick(Obj::new(po(0, 14), J_CELL), 4);
    b.oidv(0x24001C20, true, &[po(0, 15)]);
    let mw = b.u32(0x14001C1B);
    let ind = b.floats(0x1C001C12, true, 3);
    let bg = b.u32(0x14001E26);
    let (o, bad) = b.done();
    let t = Obj::new(po(0, 12), J_TABLE)
        .u32(LAST_MOD, 1)
        .oidv(0x24001C20, &[po(0, 13)])
        .u32(0x14001D57, 1)
        .u32(0x14001D58, 1);
    let row = Obj::new(po(0, 13), J_ROW).oidv(0x24001C20, &[po(0, 14)]);
    let r = parse(&in_element(&[po(0, 12)], vec![t, row, o, element0(po(0, 15), &[])]));
    if bad {
        return must_fail(r, "table cell without a mandatory property accepted");
    }
    let s = must(r, "table cell rejected");
    let t = some(content1(&s).table(), "content is no table");
    let c = &t.contents()[0].contents()[0];
    vp::check(c.contents().len() == 1, "cell contents");
    vp::check(eqf(c.layout_max_width(), mw), "cell max width");
    vp::check(eqfs(c.outline_indent_distance().value(), &ind.unwrap()), "cell indents");
    vp::check(eqcol(c.background_color(), bg), "cell background");
    vp::cover("ok");
});

entry!(w_row, |_| {
    let mut b = B::pick(Obj::new(po(0, 13), J_ROW), 1);
    b.oidv(0x24001C20, true, &[po(0, 14)]);
    let (o, bad) = b.done();
    let t = Obj::new(po(0, 12), J_TABLE)
        .u32(LAST_MOD, 1)
        .oidv(0x24001C20, &[po(0, 13)])
        .u32(0x14001D57, 1)
        .u32(0x14001D58, 1);
    let r = parse(&in_element(&[po(0, 12)], vec![t, o, cell0(po(0, 14), &[])]));
    if bad {
        return must_fail(r, "table row without cells accepted");
    }
    let s = must(r, "table row rejected");
    let t = some(content1(&s).table(), "content is no table");
    vp::check(t.contents().len() == 1 && t.contents()[0].contents().len() == 1, "cells");
    vp::cover("ok");
});

entry!(w_image, |place| {
    let mut b = B::pick(Obj::new(po(0, 12), J_IMAGE), 18);
    let pic = b.oid(0x20001C3F, false, po(0, 13));
    let mw = b.u32(0x14001C1B);
    let mh = b.u32(0x14001C1C);
    let alt = b.s(0x1C001E58, false);
    let a1 = b.al(0x14001C3E, 0);
    let a2 = b.al(0x14001C84, 1);
    let name = b.s(0x1C001DD7, false);
    let pn = b.u32(0x14003480);
    let text = b.s(0x1C001C22, false);
    let lang = b.u16(0x10001CFE, false);
    let pw = b.u32(0x140034CD);
    let ph = b.u32(0x140034CE);
    let url = b.s(0x1C001E20, false);
    let x = b.u32(0x14001C14);
    let y = b.u32(0x14001C15);
    let bg = b.b(0x08001D13);
    let emb = b.oidv(0x24001C1F, false, &[po(0, 14)]);
    b.u32(LAST_MOD);
    let (o, bad) = b.done();
    let d = vp::bytes::<4>();
    let mut pc = Obj::new(po(0, 13), J_PICTURE).with_blob(ex(0x60, 1));
    pc = pc.s(0x24003424 & 0x03ffffff | 7 << 26, "png");
    let fr = Obj::new(po(0, 14), J_IFRAME).s(0x1C0035F3, "url");
    let mut st = if place == 0 {
        one_page(page_node(0, &[po(0, 12)]), vec![o, pc, fr])
    } else {
        in_element(&[po(0, 12)], vec![o, pc, fr])
    };
    st.blobs.push((ex(0x60, 1), d.to_vec()));
    let r = parse(&st);
    if bad {
        return must_fail(r, "image with a mistyped property accepted");
    }
    let s = must(r, "image rejected");
    let i = if place == 0 {
        some(pc1(page1(&s)).image(), "page content is no image")
    } else {
        some(content1(&s).image(), "content is no image")
    };
    vp::check(if pic { i.data() == Some(&d[..]) } else { i.data().is_none() }, "image data");
    vp::check(i.extension() == if pic { Some("png") } else { None }, "image extension");
    vp::check(eqf(i.layout_max_width(), mw), "image max width");
    vp::check(eqf(i.layout_max_height(), mh), "image max height");
    vp::check(i.alt_text() == alt, "image alt text");
    vp::check(eqalign!(i.layout_alignment_in_parent(), a1), "image alignment in parent");
    vp::check(eqalign!(i.layout_alignment_self(), a2), "image alignment self");
    vp::check(i.image_filename() == name, "image file name");
    vp::check(eqo(i.displayed_page_number(), pn), "image page number");
    vp::check(i.text() == text, "image text");
    vp::check(eqo(i.text_language_code(), lang.map(|v| v as u32)), "image text language");
    vp::check(eqf(i.picture_width(), pw), "picture width");
    vp::check(eqf(i.picture_height(), ph), "picture height");
    vp::check(i.hyperlink_url() == url, "image link");
    vp::check(eqf(i.offset_horizontal(), x), "image offset horizontal");
    vp::check(eqf(i.offset_vertical(), y), "image offset vertical");
    vp::check(i.is_background() == bg.unwrap_or(false), "image background");
    vp::check(i.note_tags().is_empty(), "no note tags");
    vp::check(i.embeds().len() == emb as usize, "image embeds");
    vp::cover("ok");
});

entry!(w_iframe, |_| {
    let mut b = B::pick(Obj::new(po(0, 14), J_IFRAME), 2);
    let t = b.u32(0x140035F2);
    let url = b.s(0x1C0035F3, true);
    let (o, bad) = b.done();
    let i = Obj::new(po(0, 12), J_IMAGE).oidv(0x24001C1F, &[po(0, 14), po(0, 15)]);
    let o2 = Obj::new(po(0, 15), J_IFRAME).s(0x1C0035F3, "second");
    let r = parse(&in_element(&[po(0, 12)], vec![i, o, o2]));
    if bad {
        return must_fail(r, "iframe without a source accepted");
    }
    let s = must(r, "iframe rejected");
    let i = some(content1(&s).image(), "content is no image");
    vp::check(i.embeds().len() == 2, "embed count");
    vp::check(eqo(i.embeds()[0].embed_type(), t), "embed type");
    vp::check(Some(i.embeds()[0].source_url()) == url, "embed url");
    vp::check(i.embeds()[1].source_url() == "second" && i.embeds()[1].embed_type().is_none(), "second embed");
    vp::cover("ok");
});

entry!(w_file, |place| {
    let mut b = B::pick(Obj::new(po(0, 12), J_FILE), 9);
    b.u32_req(LAST_MOD);
    b.oid(0x20001C3F, false, po(0, 19));
    b.oid(0x20001D9B, true, po(0, 13));
    let name = b.s(0x1C001D9C, true);
    let mw = b.u32(0x14001C1B);
    let mh = b.u32(0x14001C1C);
    let x = b.u32(0x14001C14);
    let y = b.u32(0x14001C15);
    let media = b.fix32(0x14001D24, 2);
    let (o, bad) = b.done();
    let d = vp::bytes::<5>();
    let fc = Obj::new(po(0, 13), J_FILE_CONTAINER).with_blob(ex(0x60, 1));
    let mut st = if place == 0 {
        one_page(page_node(0, &[po(0, 12)]), vec![o, fc])
    } else {
        in_element(&[po(0, 12)], vec![o, fc])
    };
    st.blobs.push((ex(0x60, 1), d.to_vec()));
    let r = parse(&st);
    if bad {
        return must_fail(r, "embedded file without a mandatory property accepted");
    }
    let s = must(r, "embedded file rejected");
    let f = if place == 0 {
        some(pc1(page1(&s)).embedded_file(), "page content is no file")
    } else {
        some(content1(&s).embedded_file(), "content is no file")
    };
    vp::check(Some(f.filename()) == name, "file name");
    vp::check(is(f.file_type(), if media { "Video" } else { "Unknown" }), "file type");
    vp::check(f.data() == &d[..], "file data");
    vp::check(eqf(f.layout_max_width(), mw), "file max width");
    vp::check(eqf(f.layout_max_height(), mh), "file max height");
    vp::check(eqf(f.offset_horizontal(), x), "file offset horizontal");
    vp::check(eqf(f.offset_vertical(), y), "file offset vertical");
    vp::check(f.note_tags().is_empty(), "no note tags");
    vp::cover("ok");
});

entry!(w_list, |_| {
    let mut b = B::pick(Obj::new(po(0, 16), J_LIST), 9);
    b.u32_req(LAST_MOD);
    let lf = b.s(0x1C001C52, false);
    let rs = b.u32(0x14001CB7);
    let c = vp::u16();
    vp::assume(c >> 11 != 0x1b);
    let fm = b.v(0x1C001C1A, true, &[2, 0, c as u8, (c >> 8) as u8, b'.', 0]);
    let bold = b.b(0x08001C04);
    let italic = b.b(0x08001C05);
    let font = b.s(0x1C001C0A, false);
    let size = b.u16(0x10001C0B, false);
    let col = b.cref(0x14001C0C);
    let (o, bad) = b.done();
    let e = element0(po(0, 11), &[]).oidv(0x24001C26, &[po(0, 16)]);
    let r = parse(&one_page(page_node(0, &[po(0, 10)]), vec![outline0(po(0, 10), &[po(0, 11)]), e, o]));
    if bad || !fm {
        return must_fail(r, "list without a mandatory property accepted");
    }
    let s = must(r, "list rejected");
    let e = elem1(outline1(page1(&s)));
    vp::check(e.list_contents().len() == 1, "list count");
    let l = &e.list_contents()[0];
    vp::check(l.list_font() == lf, "list font");
    vp::check(eqo(l.list_restart(), rs.map(|v| v as i32)), "list restart");
    vp::check(l.list_format().len() == 2, "list format length");
    vp::check(l.list_format()[0] as u32 == c as u32 && l.list_format()[1] == '.', "list format");
    vp::check(l.bold() == bold.unwrap_or(false), "list bold");
    vp::check(l.italic() == italic.unwrap_or(false), "list italic");
    vp::check(l.font() == font, "list text font");
    vp::check(eqo(l.font_size(), size), "list font size");
    vp::check(eqcolref(l.font_color(), col), "list colour");
    vp::cover("ok");
});
