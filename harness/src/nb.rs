//! Notebooks: tables of contents, section groups, and the files they lead to.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::{entry, vp};
use onenote_parser::Parser;
use onenote_parser::errors::Error;
use onenote_parser::notebook::Notebook;
use onenote_parser::section::{Section, SectionEntry, SectionGroup};
use std::path::Path;

const CHILDREN: u32 = 0x24001CF6;
const NAME: u32 = 0x1C001D6B;
const ORDER: u32 = 0x14001CB9;
const COLOR: u32 = 0x14001CBE;

pub fn units(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
fn utf16(u: &[u16]) -> Vec<u8> {
    u.iter().flat_map(|c| c.to_le_bytes()).chain([0, 0]).collect()
}
/// One entry of a table of contents; `n` numbers its object.
pub fn item(n: u32, order: Option<u32>, name: Option<&[u16]>, children: &[u32]) -> Obj {
    let mut o = Obj::new(so(n), J_TOC);
    if !children.is_empty() {
        o = o.oidv(CHILDREN, &children.iter().map(|&c| so(c)).collect::<Vec<_>>());
    }
    if let Some(s) = name {
        o = o.v(NAME, &utf16(s));
    }
    if let Some(k) = order {
        o = o.u32(ORDER, k);
    }
    o
}
/// A table of contents whose root (object 1) is the first of `objs`.
pub fn toc_of(objs: Vec<Obj>) -> Vec<u8> {
    let mut s = Store::with_header(TOC_SCHEMA);
    s.roots.push((exg(DATA_ROOT, 2), root_cell()));
    s.add_space(root_cell(), 0x20, &[(CONTENT, so(1))], objs);
    s.encode()
}
pub fn toc(names: &[&str]) -> Vec<u8> {
    let ids: Vec<u32> = (0..names.len() as u32).map(|i| i + 2).collect();
    let mut v = vec![item(1, None, None, &ids)];
    for (i, n) in names.iter().enumerate() {
        v.push(item(ids[i], Some(i as u32), Some(&units(n)), &[]));
    }
    toc_of(v)
}
/// A section without pages, recognisable by its name.
pub fn sect(name: &str) -> Vec<u8> {
    section(section_meta().s(0x1C00349B, name), vec![]).encode()
}
pub fn add_dir(p: &str, names: &[&str]) {
    vp::fs_file(&format_path(p, "toc.onetoc2"), &toc(names));
}
pub fn format_path(d: &str, n: &str) -> String {
    let mut s = String::from(d);
    s.push('/');
    s.push_str(n);
    s
}
pub fn open(p: &str) -> Result<Notebook, Error> {
    Parser::new().parse_notebook(Path::new(&format_path(&vp::fs_root(), p)))
}
pub fn show(e: &[SectionEntry]) -> Vec<String> {
    let mut v = vec![];
    for x in e {
        match x {
            SectionEntry::Section(s) => v.push(String::from(s.display_name())),
            SectionEntry::SectionGroup(g) => {
                v.push(String::from(g.display_name()));
                v.push(String::from("("));
                v.extend(show(g.entries()));
                v.push(String::from(")"));
            }
        }
    }
    v
}
fn is_list(e: &[SectionEntry], want: &[&str], id: &str) {
    let g = show(e);
    vp::check(g.len() == want.len(), id);
    for (a, b) in g.iter().zip(want) {
        vp::check(a == b, id);
    }
}
/// nb: the notebook with section a.one, group g (with section b.one); outside of it o.one and group p.
fn files() {
    vp::fs_file("nb/a.one", &sect("A"));
    vp::fs_file("nb/g/b.one", &sect("B"));
    add_dir("nb/g", &["b.one"]);
    vp::fs_file("o.one", &sect("O"));
    vp::fs_file("o", &sect("O"));
    vp::fs_file("p/q.one", &sect("Q"));
    add_dir("p", &["q.one"]);
}
fn inside_only() {
    vp::check(!vp::fs_outside("nb"), "file outside the notebook opened");
}
fn leaves(u: &[u16]) -> bool {
    if u.first() == Some(&0x2f) {
        return true;
    }
    let mut depth = 0;
    for c in u.split(|&c| c == 0x2f) {
        if c == [0x2e, 0x2e] {
            if depth == 0 {
                return true;
            }
            depth -= 1;
        } else if !c.is_empty() && c != [0x2e] {
            depth += 1;
        }
    }
    false
}

// An entry name made of `n` arbitrary units between fixed parts. `a`: shape * 10 + n
entry!(b_name, |a| {
    let n = (a % 10) as usize;
    named(a / 10, (0..n).map(|_| vp::u16()).collect());
});
// The same with ASCII characters.
entry!(b_ascii, |a| {
    let n = (a % 10) as usize;
    named(a / 10, (0..n).map(|_| (vp::u8() & 0x7f) as u16).collect());
});
fn named(shape: u64, mid: Vec<u16>) {
    files();
    let (pre, post) = match shape {
        0 => ("", ""),
        1 => ("..", "o.one"),
        2 => ("g/..", "o"),
        3 => ("", "o.one"),
        4 => ("g", "b.one"),
        5 => ("a", "one"),
        6 => ("..", "p"),
        7 => ("./.", "/o"),
        _ => ("g/../", "o"),
    };
    let mut u = units(pre);
    u.extend(&mid);
    u.extend(units(post));
    vp::fs_file("nb/toc.onetoc2", &toc_of(vec![item(1, None, None, &[2]), item(2, Some(1), Some(&u), &[])]));
    let r = open("nb/toc.onetoc2");
    inside_only();
    let end = u.iter().position(|&c| c == 0).unwrap_or(u.len());
    match r {
        Ok(b) => {
            vp::check(!leaves(&u[..end]), "name that leads outside accepted");
            let l = show(b.entries());
            vp::check(l.iter().all(|s| s != "O" && s != "Q" && s != "p"), "section from outside the notebook");
            vp::cover("ok");
        }
        Err(_) => vp::cover("rejected"),
    }
}
// Absolute names.
entry!(b_absolute, |k| {
    files();
    let n = match k {
        0 => "o.one",
        1 => "nb/a.one",
        2 => "p",
        _ => "nb",
    };
    let mut p = format_path(&vp::fs_root(), n);
    if vp::flag() {
        p.insert(0, '/');
    }
    if vp::flag() {
        p = format_path(".", &p);
    }
    vp::fs_file("nb/toc.onetoc2", &toc(&["a.one", &p]));
    let r = open("nb/toc.onetoc2");
    inside_only();
    match r {
        // a relative name that only resembles an absolute one
        Ok(b) => is_list(b.entries(), &["A"], "absolute name followed"),
        Err(_) => vp::cover("rejected"),
    }
});
// Entries through symbolic links: in the notebook (level 0) or in a section group of it (level 1), the entry itself, a directory it
// goes through, or the table of contents of a group.
entry!(b_link, |level| {
    files();
    let root = vp::fs_root();
    let d = if level == 0 { "nb" } else { "nb/g" };
    let up = if level == 0 { "" } else { "../" };
    // where the link leads: (target, inside, is a directory)
    let k = vp::choose(16);
    let rel = |s: &str| {
        let mut t = String::from(up);
        t.push_str(s);
        t
    };
    let inn = if level == 0 { "a.one" } else { "b.one" };
    let (to, inside): (String, bool) = match k {
        0 => (String::from(inn), true),
        1 => (rel("../o.one"), false),
        2 => (rel("../p"), false),
        3 => (String::from("."), false),
        4 => (String::from(".."), false),
        5 => (format_path(&root, "o.one"), false),
        6 => (format_path(&root, "p"), false),
        7 => (format_path(&format_path(&root, d), inn), true),
        8 => (String::from("sub"), true),
        9 => (String::from("hop"), false),
        10 => (rel("../nb2/x.one"), false),
        11 => (rel("../nb2"), false),
        12 if level == 0 => (String::from("sub/../../nb/../o.one"), false),
        12 => (String::from("sub/../../../nb/../o.one"), false),
        13 => (String::from("/"), false),
        14 => (rel("../nb"), false),
        _ => (String::from("sub/s.one"), true),
    };
    vp::fs_link(&format_path(d, "x"), &to);
    vp::fs_link(&format_path(d, "hop"), &rel("../o.one"));
    vp::fs_file(&format_path(d, "sub/s.one"), &sect("S"));
    add_dir(&format_path(d, "sub"), &["s.one"]);
    vp::fs_file("nb2/x.one", &sect("X"));
    add_dir("nb2", &["x.one"]);
    let dir = matches!(k, 2 | 3 | 4 | 6 | 8 | 11 | 13 | 14);
    let through = vp::flag();
    let name = if !through {
        String::from("x")
    } else {
        vp::assume(dir);
        format_path("x", match k {
            2 | 6 => "q.one",
            3 => inn,
            4 if level == 1 => "a.one",
            4 => "o.one",
            8 => "s.one",
            13 => "vfs",
            14 => "a.one",
            _ => "x.one",
        })
    };
    // a name that leads back into the directory through a link is not outside of it
    let back = through && (k == 3 || k == 14 && level == 0);
    vp::fs_file(&format_path(d, "toc.onetoc2"), &toc(&[&name]));
    if level == 1 {
        add_dir("nb", &["g"]);
    }
    let r = open("nb/toc.onetoc2");
    vp::check(!vp::fs_outside("nb"), "file outside the notebook opened");
    if inside || back {
        let b = must(r, "entry inside the notebook rejected");
        let w = match (k, through) {
            (15, _) | (8, true) => vec!["S"],
            (8, false) => vec!["x", "(", "S", ")"],
            _ => vec![if level == 0 { "A" } else { "B" }],
        };
        let mut l = w.clone();
        if level == 1 {
            l.insert(0, "(");
            l.insert(0, "g");
            l.push(")");
        }
        is_list(b.entries(), &l, "linked entry");
        vp::cover("ok");
    } else if k == 13 && through {
        // may not exist
    } else {
        must_fail(r, "entry that leads outside accepted");
    }
});
// The table of contents of a section group is a link, or the group itself is one.
entry!(b_grouptoc, |_| {
    vp::fs_file("nb/a.one", &sect("A"));
    vp::fs_file("nb/g2/b.one", &sect("B"));
    add_dir("nb/g2", &["b.one"]);
    vp::fs_file("p/q.one", &sect("Q"));
    add_dir("p", &["q.one"]);
    let k = vp::choose(6);
    let ok = match k {
        0 => {
            vp::fs_link("nb/g/x.onetoc2", "../../p/toc.onetoc2");
            vp::fs_file("nb/g/q.one", &sect("Z"));
            false
        }
        1 => {
            vp::fs_link("nb/g/x.onetoc2", "../g2/toc.onetoc2");
            false
        }
        2 => {
            vp::fs_file("nb/g/t/real", &toc(&["b.one"]));
            vp::fs_file("nb/g/b.one", &sect("B"));
            vp::fs_link("nb/g/x.onetoc2", "t/real");
            true
        }
        3 => {
            vp::fs_link("nb/g", "g2");
            true
        }
        4 => {
            vp::fs_link("nb/g", "../p");
            false
        }
        _ => {
            vp::fs_link("nb/g", "g2/../../p");
            false
        }
    };
    add_dir("nb", &["g"]);
    let r = open("nb/toc.onetoc2");
    inside_only();
    if ok {
        is_list(must(r, "section group rejected").entries(), &["g", "(", "B", ")"], "section group");
        vp::cover("ok");
    } else {
        must_fail(r, "section group that leads outside accepted");
    }
});

const NAMES: [&str; 6] = ["a.one", "c.one", "g", "none.one", "OneNote_RecycleBin", "h"];
fn shown(k: usize) -> &'static [&'static str] {
    match k {
        0 => &["A"],
        1 => &["C"],
        2 => &["g", "(", "B", ")"],
        5 => &["h", "(", ")"],
        _ => &[],
    }
}
fn standard() {
    files();
    vp::fs_file("nb/c.one", &sect("C"));
    add_dir("nb/h", &[]);
    vp::fs_file("nb/OneNote_RecycleBin/d.one", &sect("D"));
    add_dir("nb/OneNote_RecycleBin", &["d.one"]);
}
/// What the entries (in file order) are expected to be: sorted by number, stable, repeats next to each other once.
fn expect(l: &[(u32, usize)]) -> Vec<&'static str> {
    let mut s: Vec<(u32, usize)> = vec![];
    for &(k, n) in l {
        let mut i = s.len();
        while i > 0 && s[i - 1].0 > k {
            i -= 1;
        }
        s.insert(i, (k, n));
    }
    let mut v = vec![];
    for i in 0..s.len() {
        if i == 0 || s[i - 1].1 != s[i].1 {
            v.extend(shown(s[i].1));
        }
    }
    v
}
// Any `n` entries of a notebook (`a` < 10) or of a section group (10 + n), with any ordering numbers.
entry!(b_order, |a| {
    standard();
    let n = (a % 10) as usize;
    let l: Vec<(u32, usize)> =
        (0..n).map(|_| (vp::u32(), vp::choose(NAMES.len() as u64) as usize)).collect();
    let ids: Vec<u32> = (0..n as u32).map(|i| i + 2).collect();
    let mut v = vec![item(1, None, None, &ids)];
    for (i, &(k, m)) in l.iter().enumerate() {
        v.push(item(ids[i], Some(k), Some(&units(NAMES[m])), &[]));
    }
    let t = toc_of(v);
    let mut w = expect(&l);
    if a < 10 {
        vp::fs_file("nb/toc.onetoc2", &t);
        let b = must(open("nb/toc.onetoc2"), "notebook rejected");
        is_list(b.entries(), &w, "notebook entries");
    } else {
        vp::fs_file("nb/toc.onetoc2", &t);
        // the notebook is a group of the directory above it
        vp::fs_file("toc.onetoc2", &toc(&["nb"]));
        let b = must(open("toc.onetoc2"), "notebook rejected");
        w.insert(0, "(");
        w.insert(0, "nb");
        w.push(")");
        is_list(b.entries(), &w, "section group entries");
    }
    vp::cover("ok");
});
// Containers without a name pass on the entries below them. Any tree of up to five objects.
entry!(b_tree, |_| {
    standard();
    // objects 2..5; object i hangs below parent[i] < i; leaves are named, inner ones may be
    let par: Vec<u32> = (2..6u32).map(|i| 1 + vp::choose(i as u64 - 1) as u32).collect();
    let named = vp::choose(5) as u32; // one inner object may have a name of its own: its children do not count
    let ord: Vec<u32> = (0..4).map(|_| vp::u32()).collect();
    let mut objs = vec![];
    let kids = |p: u32| -> Vec<u32> { (2..6u32).filter(|&i| par[i as usize - 2] == p).collect() };
    objs.push(item(1, None, None, &kids(1)));
    let names = [0usize, 1, 2, 5];
    let has_name = |i: u32| kids(i).is_empty() || i == named + 1;
    for i in 2..6u32 {
        let j = i as usize - 2;
        let h = has_name(i);
        objs.push(item(i, if h { Some(ord[j]) } else { None }, if h { Some(units(NAMES[names[j]])) } else { None }.as_deref(), &kids(i)));
    }
    fn walk(i: u32, kids: &dyn Fn(u32) -> Vec<u32>, named: &dyn Fn(u32) -> bool, ord: &[u32], names: &[usize], out: &mut Vec<(u32, usize)>) {
        if i > 1 && named(i) {
            out.push((ord[i as usize - 2], names[i as usize - 2]));
            return;
        }
        for k in kids(i) {
            walk(k, kids, named, ord, names, out);
        }
    }
    let mut l = vec![];
    walk(1, &kids, &has_name, &ord, &names, &mut l);
    vp::fs_file("nb/toc.onetoc2", &toc_of(objs));
    let b = must(open("nb/toc.onetoc2"), "notebook rejected");
    is_list(b.entries(), &expect(&l), "notebook entries");
    vp::cover("ok");
});
// Escaped characters in names: every sequence of three tokens.
entry!(b_escape, |_| {
    const T: [(&str, &str); 9] =
        [("^M", "+"), ("^J", ","), ("^", "^"), ("M", "M"), ("J", "J"), ("+", "+"), (",", ","), ("m", "m"), ("^m", "^m")];
    // (names that begin or end with punctuation are refused)
    let (mut s, mut raw) = (String::new(), String::from("x"));
    for _ in 0..3 {
        raw.push_str(T[vp::choose(T.len() as u64) as usize].0);
    }
    // the characters are restored wherever the escape appears
    let c: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '^' && i + 1 < c.len() && (c[i + 1] == 'M' || c[i + 1] == 'J') {
            s.push(if c[i + 1] == 'M' { '+' } else { ',' });
            i += 2;
        } else {
            s.push(c[i]);
            i += 1;
        }
    }
    raw.push_str("y.one");
    s.push_str("y.one");
    vp::fs_file(&format_path("nb", &s), &sect("N"));
    vp::fs_file("nb/toc.onetoc2", &toc(&[&raw]));
    let b = must(open("nb/toc.onetoc2"), "notebook rejected");
    is_list(b.entries(), &["N"], "name with escaped characters");
    vp::cover("ok");
});
// Entries that cannot be decoded are errors.
entry!(b_bad, |k| {
    standard();
    let t = match k {
        // a section that is not one
        0 => {
            let mut s = sect("E");
            let n = s.len();
            let i = vp::choose(8) as usize;
            s.truncate(n / 8 * i);
            vp::fs_file("nb/e.one", &s);
            toc(&["a.one", "e.one"])
        }
        // a table of contents as a section
        1 => {
            vp::fs_file("nb/e.one", &toc(&["a.one"]));
            toc(&["e.one"])
        }
        // a directory without table of contents
        2 => {
            vp::fs_file("nb/e/b.one", &sect("B"));
            if vp::flag() {
                vp::fs_file("nb/e/onetoc2", &toc(&["b.one"]));
                vp::fs_file("nb/e/toc.onetoc", &toc(&["b.one"]));
            }
            toc(&["e"])
        }
        // a group whose table of contents is a section, or damaged
        3 => {
            let mut s = if vp::flag() { sect("E") } else { toc(&["b.one"]) };
            if !vp::flag() {
                let n = s.len();
                s.truncate(n - 1);
            } else {
                vp::assume(s[0] == sect("E")[0]);
            }
            vp::fs_file("nb/e/toc.onetoc2", &s);
            let is_toc = s == toc(&["b.one"]);
            vp::assume(!is_toc);
            toc(&["e"])
        }
        // no ordering number
        4 => toc_of(vec![item(1, None, None, &[2]), item(2, None, Some(&units("a.one")), &[])]),
        // a child that does not exist
        5 => toc_of(vec![item(1, None, None, &[2, 9]), item(2, Some(1), Some(&units("a.one")), &[])]),
        // a child of another kind
        6 => toc_of(vec![
            item(1, None, None, &[2]),
            Obj::new(so(2), vp::u32()).u32(ORDER, 1).v(NAME, &utf16(&units("a.one"))),
        ]),
        // an undecodable entry of a group
        7 => {
            vp::fs_file("nb/e/toc.onetoc2", &toc(&["x.one"]));
            vp::fs_file("nb/e/x.one", b"nothing");
            toc(&["a.one", "e"])
        }
        // ill-formed name
        8 => toc_of(vec![item(1, None, None, &[2]), item(2, Some(1), Some(&[0x61, 0xD800, 0x61]), &[])]),
        // properties stored with another type
        9 => {
            let w = vp::choose(3);
            let o = Obj::new(so(2), J_TOC);
            let o = if w == 0 { o.u64(ORDER & 0x3ffffff | 6 << 26, 1) } else { o.u32(ORDER, 1) };
            let o = if w == 1 { o.u32(NAME & 0x3ffffff | 5 << 26, 1) } else { o.v(NAME, &utf16(&units("a.one"))) };
            let o = if w == 2 { o.u32(CHILDREN & 0x3ffffff | 5 << 26, 1) } else { o };
            toc_of(vec![item(1, None, None, &[2]), o])
        }
        // no content root
        _ => {
            let mut s = Store::with_header(TOC_SCHEMA);
            s.roots.push((exg(DATA_ROOT, 2), root_cell()));
            s.add_space(root_cell(), 0x20, &[(META, so(1))], vec![item(1, None, None, &[])]);
            s.encode()
        }
    };
    vp::fs_file("nb/toc.onetoc2", &t);
    let r = open("nb/toc.onetoc2");
    if k == 6
        && let Ok(b) = &r
    {
        is_list(b.entries(), &["A"], "child kind");
        return vp::cover("ok");
    }
    must_fail(r, "undecodable entry accepted");
});
// A section is not a notebook and a notebook is no section; a section from a file has its name.
entry!(b_file, |_| {
    files();
    let root = vp::fs_root();
    vp::fs_file("nb/toc.onetoc2", &toc(&["a.one"]));
    vp::fs_file("nb/n.one", &section(section_meta(), vec![]).encode());
    vp::fs_file("nb/n.one.one", &section(section_meta(), vec![]).encode());
    let p = Parser::new();
    let at = |s: &str| format_path(&root, s);
    let s = |n: &str| -> Result<Section, Error> { p.parse_section(Path::new(&at(n))) };
    match vp::choose(7) {
        0 => must_fail(open("nb/a.one"), "section accepted as a notebook"),
        1 => must_fail(s("nb/toc.onetoc2"), "table of contents accepted as a section"),
        2 => {
            let x = must(s("nb/a.one"), "section rejected");
            vp::check(x.display_name() == "A", "stored name");
        }
        3 => {
            let x = must(s("nb/n.one"), "section rejected");
            vp::check(x.display_name() == "n", "name from the file");
        }
        4 => must_fail(s("nb/z.one"), "file that does not exist"),
        5 => must_fail(open("nb/z.onetoc2"), "file that does not exist"),
        _ => must_fail(s("nb/g"), "directory read as a section"),
    }
    vp::cover("ok");
});
// Notebook colour and group names.
entry!(b_color, |_| {
    standard();
    let c = vp::u32();
    let has = vp::flag();
    let mut o = item(1, None, None, &[2, 3]);
    if has {
        o = o.u32(COLOR, c);
    }
    // colours of the entries are not the notebook's
    let i2 = item(2, Some(1), Some(&units("a.one")), &[]).u32(COLOR, vp::u32());
    let i3 = item(3, Some(2), Some(&units("g")), &[]);
    vp::fs_file("nb/toc.onetoc2", &toc_of(vec![o, i2, i3]));
    let b = must(open("nb/toc.onetoc2"), "notebook rejected");
    is_list(b.entries(), &["A", "g", "(", "B", ")"], "entries");
    is_color(b.color(), if has { Some(c) } else { None }, "notebook colour");
    vp::cover("ok");
});
fn is_color(c: Option<onenote_parser::property::common::Color>, w: Option<u32>, id: &str) {
    vp::check(eqcol(c, w), id)
}

// Containers of a table of contents: every graph of three, each with up to two others below it.
entry!(b_cycle, |_| {
    standard();
    let mut kids: Vec<Vec<u32>> = vec![];
    let mut objs = vec![];
    for n in 1..4u32 {
        let len = vp::choose(3);
        let l: Vec<u32> = (0..len).map(|_| 1 + vp::choose(3) as u32).collect();
        objs.push(item(n, None, None, &l));
        kids.push(l);
    }
    fn ends(n: u32, depth: u32, kids: &[Vec<u32>]) -> bool {
        depth <= 3 && kids[n as usize - 1].iter().all(|k| ends(*k, depth + 1, kids))
    }
    vp::fs_file("nb/toc.onetoc2", &toc_of(objs));
    let r = open("nb/toc.onetoc2");
    if ends(1, 0, &kids) {
        must(r, "acyclic table of contents rejected");
        vp::cover("ok");
    } else {
        must_fail(r, "cyclic table of contents accepted");
    }
});
// `n` containers, each of which lists the next one twice.
entry!(b_dag, |n| {
    standard();
    let n = n as u32;
    vp::hash_mode(1);
    let objs = (1..=n).map(|i| item(i, None, None, if i < n { vec![i + 1, i + 1] } else { vec![] }.as_slice())).collect();
    vp::fs_file("nb/toc.onetoc2", &toc_of(objs));
    let r = open("nb/toc.onetoc2");
    vp::check(n > 4 || r.is_ok(), "shared containers rejected");
    vp::out(r.is_ok() as u64);
    vp::cover("done");
});

// A chain of containers whose last one lists any of the earlier ones.
entry!(b_ring, |n| {
    standard();
    let back = 1 + vp::choose(n) as u32;
    let n = n as u32;
    vp::hash_mode(1);
    let objs = (1..=n).map(|i| item(i, None, None, &[if i < n { i + 1 } else { back }])).collect();
    vp::fs_file("nb/toc.onetoc2", &toc_of(objs));
    must_fail(open("nb/toc.onetoc2"), "cyclic table of contents accepted");
});

/// Names that are easily taken for one another, as stored and as files.
const ALIKE: [(&str, &str); 15] = [
    ("ab.one", "ab.one"),
    ("Ab.one", "Ab.one"),
    ("AB.ONE", "AB.ONE"),
    ("ab.ONE", "ab.ONE"),
    ("abc.one", "abc.one"),
    ("a.one", "a.one"),
    ("a.b.one", "a.b.one"),
    ("ab.one.one", "ab.one.one"),
    ("ab", "ab"),
    ("\u{e1}b.one", "\u{e1}b.one"),
    ("a\u{301}b.one", "a\u{301}b.one"),
    ("a b.one", "a b.one"),
    ("a^Mb.one", "a+b.one"),
    ("a^Jb.one", "a,b.one"),
    ("a^b.one", "a^b.one"),
];
// Two entries with similar names; both files exist or one of them.
entry!(b_similar, |_| {
    let n = ALIKE.len() as u64;
    let (i, j, here) = (vp::choose(n) as usize, vp::choose(n) as usize, vp::choose(3));
    let title = |k: usize| ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E"][k];
    let mut want = vec![];
    for k in [i, j] {
        // the entry whose file is missing
        let left_out = here != 0 && k == if here == 1 { i } else { j };
        if left_out || want.contains(&title(k)) {
            continue;
        }
        vp::fs_file(&format_path("nb", ALIKE[k].1), &sect(title(k)));
        want.push(title(k));
    }
    vp::fs_file("nb/toc.onetoc2", &toc(&[ALIKE[i].0, ALIKE[j].0]));
    is_list(must(open("nb/toc.onetoc2"), "notebook rejected").entries(), &want, "similar names");
    vp::cover("ok");
});

// Names near the recycle bin's, in a notebook at some place: only the bin itself is left out.
const BINS: [&str; 8] = [
    "OneNote_RecycleBin",
    "OneNote_RecycleBin2",
    "My OneNote_RecycleBin",
    "OneNote_Recyclebin",
    "RecycleBin",
    "OneNote_RecycleBin.one",
    "OneNote",
    "Bin",
];
entry!(b_bin, |_| {
    let place = ["nb", "OneNote_RecycleBin", "OneNote_RecycleBin/nb", "OneNote_RecycleBin.x/OneNote_RecycleBin"][vp::choose(4) as usize];
    let (i, j) = (vp::choose(8) as usize, vp::choose(8) as usize);
    let as_file = i == j || vp::flag();
    let grouped = vp::flag();
    let d = if grouped { format_path(place, "h") } else { String::from(place) };
    let mut want = vec![];
    for k in if i == j { vec![i] } else { vec![i, j] } {
        let p = format_path(&d, BINS[k]);
        let title = ["0", "1", "2", "3", "4", "5", "6", "7"][k];
        if as_file || k == 5 {
            vp::fs_file(&p, &sect(title));
            if k != 0 {
                want.push(title);
            }
        } else {
            vp::fs_file(&format_path(&p, "x.one"), &sect(title));
            add_dir(&p, &["x.one"]);
            if k != 0 {
                want.extend([BINS[k], "(", title, ")"]);
            }
        }
    }
    add_dir(&d, &[BINS[i], BINS[j]]);
    if grouped {
        add_dir(place, &["h"]);
        want.splice(0..0, ["h", "("]);
        want.push(")");
    }
    let r = open(&format_path(place, "toc.onetoc2"));
    is_list(must(r, "notebook rejected").entries(), &want, "names near the recycle bin");
    vp::cover("ok");
});
