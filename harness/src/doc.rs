//! Ready-made documents: a minimal section with one page.
#![allow(dead_code)]
use crate::enc::*;

// object types ([MS-ONE] 2.1.13)
pub const J_SECTION: u32 = 0x00060007;
pub const J_SECTION_META: u32 = 0x00020031;
pub const J_SERIES: u32 = 0x00060008;
pub const J_MANIFEST: u32 = 0x00060037;
pub const J_PAGE: u32 = 0x0006000B;
pub const J_PAGE_META: u32 = 0x00020030;
pub const J_TITLE: u32 = 0x0006002C;
pub const J_OUTLINE: u32 = 0x0006000C;
pub const J_GROUP: u32 = 0x00060019;
pub const J_ELEMENT: u32 = 0x0006000D;
pub const J_TEXT: u32 = 0x0006000E;
pub const J_STYLE: u32 = 0x0012004D;
pub const J_TABLE: u32 = 0x00060022;
pub const J_ROW: u32 = 0x00060023;
pub const J_CELL: u32 = 0x00060024;
pub const J_IMAGE: u32 = 0x00060011;
pub const J_PICTURE: u32 = 0x00080039;
pub const J_XPS: u32 = 0x0008003A;
pub const J_IFRAME: u32 = 0x00060058;
pub const J_FILE: u32 = 0x00060035;
pub const J_FILE_CONTAINER: u32 = 0x00080036;
pub const J_LIST: u32 = 0x00060012;
pub const J_TAG_DEF: u32 = 0x00120043;
pub const J_INK: u32 = 0x00060014;
pub const J_INK_DATA: u32 = 0x0002003B;
pub const J_STROKE: u32 = 0x00020047;
pub const J_STROKE_PROPS: u32 = 0x00120048;
pub const J_TOC: u32 = 0x00020001;

pub const CONTENT: u32 = 1;
pub const META: u32 = 2;

pub fn root_cell() -> Cell {
    Cell(ex(0x20, 1), ex(0x20, 2))
}
pub fn page_cell(i: u8) -> Cell {
    Cell(ex(0x20, 1), ex(0x30 + i, 2))
}
/// Object id `n` within page `i`.
pub fn po(i: u8, n: u32) -> Ex {
    ex(0x40 + i, n)
}
/// Object id `n` within the section's root space.
pub fn so(n: u32) -> Ex {
    ex(0x22, n)
}

pub fn section_node(series: &[Ex]) -> Obj {
    Obj::new(so(1), J_SECTION)
        .v(0x1C001C30, &[0x31; 16])
        .oidv(0x24001C20, series)
        .u64(0x18001C65, 0x0102030405060708)
}
pub fn section_meta() -> Obj {
    Obj::new(so(2), J_SECTION_META).u32(0x14001D82, 1).u32(0x1400348B, 2)
}
pub fn series(id: Ex, pages: &[Cell]) -> Obj {
    Obj::new(id, J_SERIES).v(0x1C001C30, &[0x32; 16]).osidv(0x2C001D63, pages)
}
pub fn page_meta(id: Ex) -> Obj {
    Obj::new(id, J_PAGE_META)
        .v(0x1C001C30, &[0x33; 16])
        .s(0x1C001CF3, "c")
        .u64(0x18001C65, 0x0102030405060708)
}
pub fn page_manifest(id: Ex, page: Ex) -> Obj {
    Obj::new(id, J_MANIFEST).oidv(0x24001C1F, &[page])
}
/// Standard objects of page `i`: manifest 1, metadata 2, page node 3 (given).
pub fn page_objs(i: u8, page: Obj, mut more: Vec<Obj>) -> Vec<Obj> {
    let mut v = vec![page_manifest(po(i, 1), po(i, 3)), page_meta(po(i, 2)), page];
    v.append(&mut more);
    v
}
pub fn page_roots(i: u8) -> Vec<(u32, Ex)> {
    vec![(CONTENT, po(i, 1)), (META, po(i, 2))]
}
pub fn page_node(i: u8, content: &[Ex]) -> Obj {
    Obj::new(po(i, 3), J_PAGE).oidv(0x24001C20, content)
}

/// Section whose root space has the given metadata object and page series.
pub fn section(meta: Obj, ser: Vec<Obj>) -> Store {
    let mut s = Store::with_header(SECTION_SCHEMA);
    s.roots.push((exg(DATA_ROOT, 2), root_cell()));
    let ids: Vec<Ex> = ser.iter().map(|o| o.id).collect();
    let mut objs = vec![section_node(&ids), meta];
    objs.extend(ser);
    s.add_space(root_cell(), 0x20, &[(CONTENT, so(1)), (META, so(2))], objs);
    s
}
/// Section with one page made of `page` (object 3 of page 0) and `more` objects.
pub fn one_page(page: Obj, more: Vec<Obj>) -> Store {
    let mut s = section(section_meta(), vec![series(so(3), &[page_cell(0)])]);
    s.add_space(page_cell(0), 0x30, &page_roots(0), page_objs(0, page, more));
    s
}
