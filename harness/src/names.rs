//! Names with and without an extension.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::{entry, vp};
use onenote_parser::Parser;
use std::path::Path;

// A section name made of three pieces, stored or taken from the file name.
entry!(x_name, |a| {
    let n = 3 + a as usize / 10;
    let mut s = String::new();
    for _ in 0..n {
        match vp::choose(8) {
            0 => s.push_str(".one"),
            1 => s.push_str("one"),
            2 => s.push('.'),
            3 => s.push_str(".ONE"),
            4 => s.push_str(".onetoc2"),
            5 => s.push(' '),
            6 => (),
            _ => {
                let c = vp::u8() & 0x7f;
                vp::assume(c != 0 && c != b'/');
                s.push(c as char);
            }
        }
    }
    let want = {
        let b = s.as_bytes();
        let mut e = b.len();
        while e >= 4 && &b[e - 4..e] == b".one" {
            e -= 4;
        }
        &s[..e]
    };
    let mut m = section_meta();
    let file = if a % 10 == 0 {
        m = m.s(0x1C00349B, &s);
        "f.one"
    } else {
        s.as_str()
    };
    let r = Parser::new().parse_section_buffer(&section(m, vec![]).encode(), Path::new(file));
    let r = must(r, "section name rejected");
    vp::check(r.display_name() == want, "display name");
    vp::cover("ok");
});
