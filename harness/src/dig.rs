//! Everything the public getters of a section show, as one list of numbers.
use crate::tags::bits32;
use crate::vp;
use onenote_parser::contents::*;
use onenote_parser::page::*;
use onenote_parser::property::common::*;
use onenote_parser::property::note_tag::*;
use onenote_parser::section::Section;

#[derive(Default)]
pub struct D(pub Vec<u64>);

/// The bytes of a small enumeration value.
fn raw<T>(t: &T) -> u64 {
    let n = std::mem::size_of::<T>();
    if n == 0 || n > 8 {
        return 0;
    }
    let mut b = [0u8; 8];
    unsafe { std::ptr::copy_nonoverlapping(t as *const T as *const u8, b.as_mut_ptr(), n) };
    u64::from_le_bytes(b)
}
macro_rules! align {
    ($d:expr, $a:expr) => {
        match $a {
            None => $d.n(0),
            Some(a) => {
                $d.n(1);
                $d.n(raw(&a.alignment_horizontal()));
                $d.n(raw(&a.alignment_margin_horizontal()));
                $d.n(raw(&a.alignment_vertical()));
                $d.n(raw(&a.alignment_margin_vertical()));
            }
        }
    };
}
impl D {
    pub fn n(&mut self, v: u64) {
        self.0.push(v)
    }
    fn b(&mut self, v: bool) {
        self.n(v as u64)
    }
    fn s(&mut self, v: &str) {
        self.n(0x1000 + v.len() as u64);
        for c in v.bytes() {
            self.n(c as u64);
        }
    }
    fn os(&mut self, v: Option<&str>) {
        match v {
            None => self.n(0),
            Some(v) => self.s(v),
        }
    }
    fn bytes(&mut self, v: &[u8]) {
        self.n(0x1000 + v.len() as u64);
        for c in v {
            self.n(*c as u64);
        }
    }
    fn f(&mut self, v: f32) {
        self.n(v.to_bits() as u64)
    }
    fn of(&mut self, v: Option<f32>) {
        self.b(v.is_some());
        if let Some(v) = v {
            self.f(v)
        }
    }
    fn fs(&mut self, v: &[f32]) {
        self.n(v.len() as u64);
        for v in v {
            self.f(*v)
        }
    }
    fn ou(&mut self, v: Option<u64>) {
        self.b(v.is_some());
        if let Some(v) = v {
            self.n(v)
        }
    }
    fn color(&mut self, c: Option<Color>) {
        match c {
            None => self.n(0),
            Some(c) => self.n(1 << 32 | (c.alpha() as u64) << 24 | (c.r() as u64) << 16 | (c.g() as u64) << 8 | c.b() as u64),
        }
    }
    fn cref(&mut self, c: Option<ColorRef>) {
        match c {
            None => self.n(0),
            Some(ColorRef::Auto) => self.n(1),
            Some(ColorRef::Manual { r, g, b }) => self.n(1 << 32 | (r as u64) << 16 | (g as u64) << 8 | b as u64),
        }
    }
    pub fn section(&mut self, s: &Section) {
        self.s(s.display_name());
        self.color(s.color());
        self.n(s.page_series().len() as u64);
        for p in s.page_series() {
            self.n(p.pages().len() as u64);
            for p in p.pages() {
                self.page(p);
            }
        }
    }
    pub fn page(&mut self, p: &Page) {
        self.n(p.level() as u32 as u64);
        self.os(p.author());
        self.of(p.height());
        self.os(p.title_text());
        match p.title() {
            None => self.n(0),
            Some(t) => {
                self.n(1 + t.contents().len() as u64);
                for o in t.contents() {
                    self.outline(o);
                }
                self.f(t.offset_horizontal());
                self.f(t.offset_vertical());
                align!(self, t.layout_alignment_in_parent());
                align!(self, t.layout_alignment_self());
            }
        }
        self.n(p.contents().len() as u64);
        for c in p.contents() {
            match c {
                PageContent::Outline(o) => {
                    self.n(1);
                    self.outline(o)
                }
                PageContent::Image(i) => {
                    self.n(2);
                    self.image(i)
                }
                PageContent::EmbeddedFile(f) => {
                    self.n(3);
                    self.file(f)
                }
                PageContent::Ink(i) => {
                    self.n(4);
                    self.ink(i)
                }
                PageContent::Unknown => self.n(5),
            }
        }
    }
    fn outline(&mut self, o: &Outline) {
        self.items(o.items());
        self.n(o.child_level() as u64);
        self.of(o.list_spacing());
        self.fs(o.indents());
        align!(self, o.alignment_in_parent());
        align!(self, o.alignment_self());
        self.of(o.layout_max_height());
        self.of(o.layout_max_width());
        self.of(o.layout_reserved_width());
        self.of(o.layout_minimum_outline_width());
        self.b(o.is_layout_size_set_by_user());
        self.of(o.offset_horizontal());
        self.of(o.offset_vertical());
    }
    fn items(&mut self, v: &[OutlineItem]) {
        self.n(v.len() as u64);
        for i in v {
            match i {
                OutlineItem::Element(e) => {
                    self.n(1);
                    self.element(e)
                }
                OutlineItem::Group(g) => {
                    self.n(2);
                    self.n(g.child_level() as u64);
                    self.items(g.outlines());
                }
            }
        }
    }
    fn element(&mut self, e: &OutlineElement) {
        self.n(e.contents().len() as u64);
        for c in e.contents() {
            match c {
                Content::RichText(t) => {
                    self.n(1);
                    self.text(t)
                }
                Content::Table(t) => {
                    self.n(2);
                    self.table(t)
                }
                Content::Image(i) => {
                    self.n(3);
                    self.image(i)
                }
                Content::EmbeddedFile(f) => {
                    self.n(4);
                    self.file(f)
                }
                Content::Ink(i) => {
                    self.n(5);
                    self.ink(i)
                }
                Content::Unknown => self.n(6),
            }
        }
        self.n(e.list_contents().len() as u64);
        for l in e.list_contents() {
            self.os(l.list_font());
            self.ou(l.list_restart().map(|v| v as u32 as u64));
            self.n(l.list_format().len() as u64);
            for c in l.list_format() {
                self.n(*c as u64);
            }
            self.b(l.bold());
            self.b(l.italic());
            self.os(l.font());
            self.ou(l.font_size().map(|v| v as u64));
            self.cref(l.font_color());
        }
        self.of(e.list_spacing());
        self.n(e.child_level() as u64);
        self.items(e.children());
    }
    fn style(&mut self, p: &ParagraphStyling) {
        self.ou(p.charset().map(|c| raw(&c)));
        let mut m = 0;
        for (i, b) in [
            p.bold(), p.italic(), p.underline(), p.strikethrough(), p.superscript(), p.subscript(), p.math_formatting(),
            p.hyperlink(),
        ]
        .iter()
        .enumerate()
        {
            m |= (*b as u64) << i;
        }
        self.n(m);
        self.os(p.font());
        self.ou(p.font_size().map(|v| v as u64));
        self.cref(p.font_color());
        self.cref(p.highlight());
        self.os(p.next_style());
        self.os(p.style_id());
        self.ou(p.paragraph_alignment().map(|c| raw(&c)));
        self.of(p.paragraph_space_before());
        self.of(p.paragraph_space_after());
        self.of(p.paragraph_line_spacing_exact());
        self.ou(p.language_code().map(|v| v as u64));
    }
    fn text(&mut self, t: &RichText) {
        self.s(t.text());
        self.n(t.text_run_formatting().len() as u64);
        for p in t.text_run_formatting() {
            self.style(p);
        }
        self.n(t.text_run_indices().len() as u64);
        for i in t.text_run_indices() {
            self.n(*i as u64);
        }
        self.style(t.paragraph_style());
        self.f(t.paragraph_space_before());
        self.f(t.paragraph_space_after());
        self.of(t.paragraph_line_spacing_exact());
        self.n(raw(&t.paragraph_alignment()));
        align!(self, t.layout_alignment_in_parent());
        align!(self, t.layout_alignment_self());
        self.tags(t.note_tags());
        self.n(t.embedded_objects().len() as u64);
        for e in t.embedded_objects() {
            match e {
                EmbeddedObject::Ink(c) => {
                    self.n(1);
                    self.ink(c.ink());
                    match c.bounding_box() {
                        None => self.n(0),
                        Some(b) => self.bbox(*b),
                    }
                }
                EmbeddedObject::InkSpace(s) => {
                    self.n(2);
                    self.f(s.height());
                    self.f(s.width());
                }
                EmbeddedObject::InkLineBreak => self.n(3),
            }
        }
        self.n(t.math_inline_objects().len() as u64);
        for m in t.math_inline_objects() {
            self.n(raw(&m.object_type()));
            self.n(m.arg_count() as u64);
            self.ou(m.column().map(|v| v as u64));
            self.ou(m.align().map(|v| v as u64));
            self.ou(m.char().map(|v| v as u64));
            self.ou(m.char1().map(|v| v as u64));
            self.ou(m.char2().map(|v| v as u64));
        }
    }
    fn tags(&mut self, v: &[NoteTag]) {
        self.n(v.len() as u64);
        for t in v {
            self.ou(t.completed_at().map(|t| bits32(t) as u64));
            let s = t.item_status();
            self.n(s.completed() as u64 | (s.disabled() as u64) << 1 | (s.task_tag() as u64) << 2);
            match t.definition() {
                None => self.n(0),
                Some(d) => {
                    self.s(d.label());
                    let s = d.status();
                    let mut m = 0;
                    for (i, b) in [
                        s.has_label(), s.has_font_color(), s.has_highlight_color(), s.has_icon(), s.due_today(), s.due_tomorrow(),
                        s.due_this_week(), s.due_next_week(), s.due_later(), s.due_custom(),
                    ]
                    .iter()
                    .enumerate()
                    {
                        m |= (*b as u64) << i;
                    }
                    self.n(m);
                    self.n(raw(&d.shape()));
                    self.cref(d.highlight_color());
                    self.cref(d.text_color());
                    self.action(d.action_item_type());
                }
            }
        }
    }
    fn action(&mut self, a: ActionItemType) {
        self.n(raw(&a))
    }
    fn table(&mut self, t: &Table) {
        self.n(t.rows() as u64);
        self.n(t.cols() as u64);
        self.bytes(t.cols_locked());
        self.fs(t.col_widths());
        self.b(t.borders_visible());
        align!(self, t.layout_alignment_in_parent());
        align!(self, t.layout_alignment_self());
        self.tags(t.note_tags());
        self.n(t.contents().len() as u64);
        for r in t.contents() {
            self.n(r.contents().len() as u64);
            for c in r.contents() {
                self.of(c.layout_max_width());
                self.fs(c.outline_indent_distance().value());
                self.color(c.background_color());
                self.n(c.contents().len() as u64);
                for e in c.contents() {
                    self.element(e);
                }
            }
        }
    }
    fn image(&mut self, i: &Image) {
        match i.data() {
            None => self.n(0),
            Some(b) => self.bytes(b),
        }
        self.os(i.extension());
        self.of(i.layout_max_width());
        self.of(i.layout_max_height());
        self.os(i.alt_text());
        align!(self, i.layout_alignment_in_parent());
        align!(self, i.layout_alignment_self());
        self.os(i.image_filename());
        self.ou(i.displayed_page_number().map(|v| v as u64));
        self.os(i.text());
        self.ou(i.text_language_code().map(|v| v as u64));
        self.of(i.picture_width());
        self.of(i.picture_height());
        self.os(i.hyperlink_url());
        self.of(i.offset_horizontal());
        self.of(i.offset_vertical());
        self.b(i.is_background());
        self.tags(i.note_tags());
        self.n(i.embeds().len() as u64);
        for e in i.embeds() {
            self.ou(e.embed_type().map(|v| v as u64));
            self.s(e.source_url());
        }
    }
    fn file(&mut self, f: &EmbeddedFile) {
        self.s(f.filename());
        self.n(raw(f.file_type()));
        self.bytes(f.data());
        self.of(f.layout_max_width());
        self.of(f.layout_max_height());
        self.of(f.offset_horizontal());
        self.of(f.offset_vertical());
        self.tags(f.note_tags());
    }
    fn bbox(&mut self, b: InkBoundingBox) {
        self.n(1);
        self.f(b.x());
        self.f(b.y());
        self.f(b.width());
        self.f(b.height());
    }
    fn ink(&mut self, i: &Ink) {
        match i.bounding_box() {
            None => self.n(0),
            Some(b) => self.bbox(b),
        }
        self.of(i.offset_horizontal());
        self.of(i.offset_vertical());
        self.n(i.ink_strokes().len() as u64);
        for s in i.ink_strokes() {
            self.n(s.path().len() as u64);
            for p in s.path() {
                self.f(p.x());
                self.f(p.y());
            }
            self.ou(s.pen_tip().map(|v| v as u64));
            self.ou(s.transparency().map(|v| v as u64));
            self.f(s.height());
            self.f(s.width());
            self.ou(s.color().map(|v| v as u64));
        }
    }
}
pub fn of(s: &Section) -> D {
    let mut d = D(Vec::with_capacity(1024));
    d.section(s);
    d
}
/// Both show the same.
pub fn same(a: &D, b: &D, id: &str) {
    vp::check(a.0.len() == b.0.len(), id);
    let mut r = true;
    for i in 0..a.0.len() {
        r &= a.0[i] == b.0[i];
    }
    vp::check(r, id);
}
