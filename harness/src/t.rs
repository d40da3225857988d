use crate::doc::*;
use crate::vp;
use onenote_parser::Parser;
use std::path::Path;

#[unsafe(no_mangle)]
pub extern "C" fn t_raw(n: u64) {
    let b = vp::vec(n as usize);
    vp::alloc_limit(1 << 20);
    let r = Parser::new().parse_section_buffer(&b, Path::new("a.one"));
    vp::out(r.is_ok() as u64);
    vp::cover("done");
}
#[unsafe(no_mangle)]
pub extern "C" fn t_min(_n: u64) {
    let h = vp::u32();
    let lvl = vp::u32();
    let page = page_node(0, &[]).u32(0x14001C02, h);
    let mut s = section(section_meta(), vec![series(so(3), &[page_cell(0)])]);
    let mut objs = page_objs(0, page, vec![]);
    objs[1] = page_meta(po(0, 2)).u32(0x14001DFF, lvl);
    s.add_space(page_cell(0), 0x30, &page_roots(0), objs);
    let b = s.encode();
    match Parser::new().parse_section_buffer(&b, Path::new("a.one")) {
        Ok(r) => {
            vp::check(r.page_series().len() == 1, "one series");
            let p = &r.page_series()[0].pages()[0];
            vp::check(p.height().unwrap().to_bits() == h, "height");
            vp::check(p.level() == lvl as i32, "level");
            vp::out(p.level() as u64);
            vp::cover("ok");
        }
        Err(_) => vp::fail("well-formed file rejected"),
    }
}
