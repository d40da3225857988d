//! Opening files: the ways to do it agree, reads come in any sizes, failures are reported for what they are.
use crate::bld::*;
use crate::dig;
use crate::doc::*;
use crate::enc::*;
use crate::full;
use crate::nb::*;
use crate::store::*;
use crate::{entry, vp};
use core::fmt::Write;
use onenote_parser::Parser;
use onenote_parser::errors::Error;
use onenote_parser::section::{Section, SectionEntry};
use std::path::{Path, PathBuf};

fn at(p: &str) -> PathBuf {
    PathBuf::from(format_path(&vp::fs_root(), p))
}
/// A document with an object of every kind and arbitrary values, and `pad` bytes of attachments.
fn document(pad: usize) -> Vec<u8> {
    let v = full::V::any();
    let mut s = full::full(&v);
    if pad > 0 {
        s.blobs.push((ex(0x6F, 1), vec![0x5A; pad]));
    }
    s.encode()
}
fn section_of(e: &[SectionEntry], i: usize) -> &Section {
    match e.get(i) {
        Some(SectionEntry::Section(s)) => s,
        _ => vp::fail("section of the notebook"),
    }
}
fn notebook(b: &[u8]) {
    vp::fs_file("nb/a.one", b);
    vp::fs_file("nb/g/a.one", b);
    add_dir("nb/g", &["a.one"]);
    add_dir("nb", &["a.one", "g"]);
}
const SIZES: [u64; 5] = [1, 7, 512, 4096, u64::MAX];

// A buffer, a file, a notebook's section and a section group's section: `pad` 1000 bytes are added.
entry!(o_same, |pad| {
    let b = document(pad as usize * 1000);
    notebook(&b);
    let p = Parser::new();
    let want = dig::of(&must(p.parse_section_buffer(&b, Path::new("a.one")), "buffer rejected"));
    let id = "the ways to open a section differ";
    match vp::choose(3) {
        0 => dig::same(&want, &dig::of(&must(p.parse_section(&at("nb/a.one")), "file rejected")), id),
        1 => {
            let n = must(p.parse_notebook(&at("nb/toc.onetoc2")), "notebook rejected");
            vp::check(n.entries().len() == 2, id);
            dig::same(&want, &dig::of(section_of(n.entries(), 0)), id);
            match &n.entries()[1] {
                SectionEntry::SectionGroup(g) => {
                    vp::check(g.display_name() == "g", id);
                    vp::check(g.entries().len() == 1, id);
                    dig::same(&want, &dig::of(section_of(g.entries(), 0)), id);
                }
                _ => vp::fail(id),
            }
        }
        _ => {
            // the group's directory is itself a notebook
            let n = must(p.parse_notebook(&at("nb/g/toc.onetoc2")), "notebook rejected");
            vp::check(n.entries().len() == 1, id);
            dig::same(&want, &dig::of(section_of(n.entries(), 0)), id);
        }
    }
    vp::cover("ok");
});

// A section without a stored name, in a file of some name.
entry!(o_names, |_| {
    const N: [&str; 12] = [
        "a.one", "a", "a.bin", "a.b.one", "a.one.one", "a.ONE", "a.one.bin", "one", "a one", "a.onetoc2x", "\u{e4}.\u{f6}", "x.y.z",
    ];
    let n = N[vp::choose(12) as usize];
    let b = section(section_meta(), vec![]).encode();
    vp::fs_file(&format_path("nb", n), &b);
    vp::fs_file(&format_path("nb/g", n), &b);
    add_dir("nb/g", &[n]);
    add_dir("nb", &[n, "g"]);
    let p = Parser::new();
    let want = n.trim_end_matches(".one");
    let id = "the name depends on the way a section is opened";
    let s = match vp::choose(4) {
        0 => must(p.parse_section_buffer(&b, Path::new(n)), "buffer rejected"),
        1 => must(p.parse_section(&at(&format_path("nb", n))), "file rejected"),
        2 => section_of(must(p.parse_notebook(&at("nb/toc.onetoc2")), "notebook rejected").entries(), 0).clone(),
        _ => match &must(p.parse_notebook(&at("nb/toc.onetoc2")), "notebook rejected").entries()[1] {
            SectionEntry::SectionGroup(g) => section_of(g.entries(), 0).clone(),
            _ => vp::fail(id),
        },
    };
    vp::check(s.display_name() == want, id);
    vp::cover("ok");
});

// Short, interrupted and failing reads.
entry!(o_reads, |pad| {
    let b = document(pad as usize * 1000);
    let size = b.len() as u64;
    vp::fs_file("nb/a.one", &b);
    let p = Parser::new();
    let want = dig::of(&must(p.parse_section_buffer(&b, Path::new("a.one")), "buffer rejected"));
    let limit = SIZES[vp::choose(5) as usize];
    // this read fails; so many are needed at least
    let need = if limit > size { 1 } else { size.div_ceil(limit) };
    let k = match vp::choose(6) {
        0 => u64::MAX,
        1 => 0,
        2 => 1,
        3 => 2,
        4 => need / 2,
        _ => need - 1,
    };
    let errno = [4, 5, 21][vp::choose(3) as usize];
    // the file grows or shrinks meanwhile, or it has no size
    let told = [u64::MAX, 0, 1, size / 2, size + 70000][vp::choose(5) as usize];
    vp::fs_reads(limit, k, errno);
    vp::fs_sizes(told);
    let r = p.parse_section(&at("nb/a.one"));
    vp::fs_reads(u64::MAX, u64::MAX, 0);
    vp::fs_sizes(u64::MAX);
    match r {
        Ok(s) => {
            vp::check(errno == 4 || k >= need, "read failure ignored");
            dig::same(&want, &dig::of(&s), "section read in parts differs");
            vp::cover("ok");
        }
        Err(_) => {
            vp::check(errno != 4 && k != u64::MAX, "interrupted or short read fails");
            vp::cover("rejected");
        }
    }
});

// A file or directory of a notebook that cannot be opened is an error of the whole.
entry!(o_opens, |_| {
    vp::fs_file("nb/a.one", &sect("A"));
    vp::fs_file("nb/c.one", &sect("C"));
    vp::fs_file("nb/g/b.one", &sect("B"));
    add_dir("nb/g", &["b.one"]);
    add_dir("nb", &["a.one", "g", "c.one"]);
    let k = vp::choose(7);
    vp::fs_opens(k, [2, 5, 13, 24][vp::choose(4) as usize]);
    let r = open("nb/toc.onetoc2");
    vp::fs_opens(u64::MAX, 0);
    // the two tables of contents, the directory and the three sections
    if k < 6 {
        return must_fail(r, "notebook without one of its files accepted");
    }
    let l = show(must(r, "notebook rejected").entries());
    vp::check(l == ["A", "g", "(", "B", ")", "C"], "notebook entries");
    vp::cover("ok");
});

struct Sink(Vec<u8>);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
fn says<T>(r: Result<T, Error>, want: &str, id: &str) {
    let e = match r {
        Ok(_) => vp::fail(id),
        Err(e) => e,
    };
    let mut s = Sink(vec![]);
    vp::check(write!(s, "{}", e).is_ok(), "error without text");
    vp::check(s.0.starts_with(want.as_bytes()), id);
    vp::cover("rejected");
}
fn says_path<T>(r: Result<T, Error>, want: &str, path: &str, id: &str) {
    let mut s = String::from(want);
    s.push_str(path);
    says(r, &s, id)
}

// The documented kinds of errors.
entry!(o_kinds, |k| {
    let p = Parser::new();
    let root = vp::fs_root();
    let full = |s: &str| format_path(&root, s);
    let sec = section(section_meta(), vec![]);
    match k {
        0 => {
            // another schema, given as a section
            let mut s = sec.clone();
            s.schema = if vp::flag() { g(TOC_SCHEMA) } else { vp::bytes() };
            vp::assume(s.schema != g(SECTION_SCHEMA));
            let b = s.encode();
            let id = "a file that is no section is not reported as such";
            if vp::flag() {
                says_path(p.parse_section_buffer(&b, Path::new("x/a.one")), "Not a section file: ", "x/a.one", id);
            } else {
                vp::fs_file("nb/a.one", &b);
                says_path(p.parse_section(&at("nb/a.one")), "Not a section file: ", &full("nb/a.one"), id);
            }
        }
        1 => {
            let mut s = sec.clone();
            s.schema = if vp::flag() { g(SECTION_SCHEMA) } else { vp::bytes() };
            vp::assume(s.schema != g(TOC_SCHEMA));
            vp::fs_file("nb/a.onetoc2", &s.encode());
            let id = "a file that is no table of contents is not reported as such";
            says_path(p.parse_notebook(&at("nb/a.onetoc2")), "Not a table of contents file: ", &full("nb/a.onetoc2"), id);
        }
        2 => {
            vp::fs_file("nb/g/b.one", &sect("B"));
            add_dir("nb", &["g"]);
            let id = "a missing table of contents is not reported as such";
            says_path(open("nb/toc.onetoc2"), "Table of contents file is missing in dir ", &full("nb/g"), id);
        }
        3 => {
            let id = "a missing file is not reported as such";
            match vp::choose(3) {
                0 => says(p.parse_section(&at("nb/a.one")), "I/O failure: ", id),
                1 => says(p.parse_notebook(&at("nb/a.one")), "I/O failure: ", id),
                _ => {
                    vp::fs_dir("nb");
                    says(p.parse_section(&at("nb")), "I/O failure: ", id)
                }
            }
        }
        4 => {
            vp::fs_file("o.one", &sect("O"));
            let n = ["../o.one", "/o.one", "a/../../o.one", "", ".", "a\u{1}.one", "CON", "a?.one"];
            add_dir("nb", &[n[vp::choose(8) as usize]]);
            says(open("nb/toc.onetoc2"), "Invalid path: ", "an unsuitable name is not reported as such")
        }
        5 => {
            // unpaired surrogates
            let u = vp::u16();
            vp::assume(u >= 0xDC00 && u <= 0xDFFF);
            let m = section_meta().v(0x1C00349B, &[b'a', 0, u as u8, (u >> 8) as u8, b'b', 0, 0, 0]);
            let b = section(m, vec![]).encode();
            says(p.parse_section_buffer(&b, Path::new("a.one")), "Malformed ", "malformed text is not reported as such")
        }
        _ => {
            // truncated
            let b = rich(1, 2, &vp::bytes::<3>()).encode();
            let n = (k - 6) as usize * 200 + vp::choose(200) as usize;
            if n < b.len() {
                says(p.parse_section_buffer(&b[..n], Path::new("a.one")), "Unexpected end of file", "a truncated file is not reported as such")
            }
        }
    }
});
