//! Text decoding.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::wire::*;
use crate::{entry, vp};

/// Reference: the code points of UTF-16LE text up to the first NUL, None if ill-formed.
pub fn utf16(b: &[u8]) -> Option<Vec<u32>> {
    let mut r = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        let u = b[i] as u32 | (b[i + 1] as u32) << 8;
        i += 2;
        if u == 0 {
            return Some(r);
        }
        if u < 0xD800 || u > 0xDFFF {
            r.push(u);
        } else if u >= 0xDC00 {
            // the text up to the NUL counts, and this unit is before it
            return None;
        } else {
            if i + 1 >= b.len() {
                return None;
            }
            let l = b[i] as u32 | (b[i + 1] as u32) << 8;
            i += 2;
            if l < 0xDC00 || l > 0xDFFF {
                return None;
            }
            r.push(0x10000 + ((u & 0x3ff) << 10 | l & 0x3ff));
        }
    }
    Some(r)
}
/// Reference UTF-8 encoding.
pub fn utf8(v: &[u32]) -> Vec<u8> {
    let mut r = vec![];
    for &c in v {
        if c < 0x80 {
            r.push(c as u8);
        } else if c < 0x800 {
            r.extend_from_slice(&[0xC0 | (c >> 6) as u8, 0x80 | (c & 0x3f) as u8]);
        } else if c < 0x10000 {
            r.extend_from_slice(&[0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3f) as u8, 0x80 | (c & 0x3f) as u8]);
        } else {
            r.extend_from_slice(&[
                0xF0 | (c >> 18) as u8,
                0x80 | (c >> 12 & 0x3f) as u8,
                0x80 | (c >> 6 & 0x3f) as u8,
                0x80 | (c & 0x3f) as u8,
            ]);
        }
    }
    r
}
pub fn eqb(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
fn doc(o: Obj) -> Result<onenote_parser::section::Section, onenote_parser::errors::Error> {
    parse(&in_element(&[po(0, 12)], vec![o, style0(po(0, 13))]))
}

// Paragraph text: `n` bytes of UTF-16.
entry!(t_utf16, |n| {
    let b = vp::vec(n as usize);
    let mut o = text0(po(0, 12), po(0, 13)).v(0x1C001C22, &b);
    if n % 2 == 0 {
        // ignored as long as there is Unicode text
        o = o.v(0x1C003498, b"other");
    }
    let r = doc(o);
    match utf16(&b) {
        None => must_fail(r, "ill-formed UTF-16 accepted"),
        Some(w) => {
            let s = must(r, "well-formed UTF-16 rejected");
            let t = some(content1(&s).rich_text(), "content is no rich text");
            vp::check(eqb(t.text().as_bytes(), &utf8(&w)), "text");
            vp::out(w.len() as u64);
            vp::cover("ok");
        }
    }
});

// Paragraph text: `n` bytes of Latin-1 without Unicode text.
entry!(t_latin1, |n| {
    let b = vp::vec(n as usize);
    let s = must(doc(text0(po(0, 12), po(0, 13)).v(0x1C003498, &b)), "Latin-1 text rejected");
    let t = some(content1(&s).rich_text(), "content is no rich text");
    let w: Vec<u32> = b.iter().map(|c| *c as u32).collect();
    vp::check(eqb(t.text().as_bytes(), &utf8(&w)), "latin-1 text");
    vp::cover("ok");
});

// Every other string property: two arbitrary units, no terminator.
entry!(t_other, |which| {
    let b = vp::vec(4);
    let w = utf16(&b);
    let mut objs = vec![];
    let top = match which {
        0 | 1 | 2 => {
            let id = [0x1C001C0A, 0x1C00348A, 0x1C00345A][which as usize];
            objs.push(style0(po(0, 13)).v(id, &b));
            text0(po(0, 12), po(0, 13))
        }
        3..=6 => {
            let id = [0x1C001E58, 0x1C001DD7, 0x1C001C22, 0x1C001E20][which as usize - 3];
            Obj::new(po(0, 12), J_IMAGE).v(id, &b)
        }
        7 => {
            objs.push(Obj::new(po(0, 13), J_FILE_CONTAINER).with_blob(ex(0x60, 1)));
            Obj::new(po(0, 12), J_FILE).u32(0x14001D7A, 1).oid(0x20001D9B, po(0, 13)).v(0x1C001D9C, &b)
        }
        8 => {
            objs.push(Obj::new(po(0, 13), J_IFRAME).v(0x1C0035F3, &b));
            Obj::new(po(0, 12), J_IMAGE).oidv(0x24001C1F, &[po(0, 13)])
        }
        _ => {
            objs.push(Obj::new(po(0, 16), J_LIST).u32(0x14001D7A, 1).v(0x1C001C1A, &[0, 0]).v(
                if which == 9 { 0x1C001C52 } else { 0x1C001C0A },
                &b,
            ));
            Obj::new(po(0, 12), J_IMAGE)
        }
    };
    objs.push(top);
    let st = if which < 9 {
        in_element(&[po(0, 12)], objs)
    } else if which < 11 {
        let mut v = vec![outline0(po(0, 10), &[po(0, 11)]), element0(po(0, 11), &[]).oidv(0x24001C26, &[po(0, 16)])];
        v.append(&mut objs);
        one_page(page_node(0, &[po(0, 10)]), v)
    } else {
        // page author
        one_page(Obj::new(po(0, 3), J_PAGE).v(0x1C001D75, &b), vec![])
    };
    let mut st = st;
    st.blobs.push((ex(0x60, 1), vec![1]));
    let r = parse(&st);
    let w = match w {
        None => return must_fail(r, "ill-formed UTF-16 accepted"),
        Some(w) => utf8(&w),
    };
    let s = must(r, "well-formed UTF-16 rejected");
    let p = page1(&s);
    let got = match which {
        0..=2 => {
            let t = some(content1(&s).rich_text(), "rich text").paragraph_style();
            [t.font(), t.next_style(), t.style_id()][which as usize]
        }
        3..=6 => {
            let i = some(content1(&s).image(), "image");
            [i.alt_text(), i.image_filename(), i.text(), i.hyperlink_url()][which as usize - 3]
        }
        7 => Some(some(content1(&s).embedded_file(), "file").filename()),
        8 => Some(some(content1(&s).image(), "image").embeds()[0].source_url()),
        9 => elem1(outline1(p)).list_contents()[0].list_font(),
        10 => elem1(outline1(p)).list_contents()[0].font(),
        _ => p.author(),
    };
    vp::check(got.is_some() && eqb(got.unwrap().as_bytes(), &w), "string property");
    vp::cover("ok");
});
