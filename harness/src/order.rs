//! Order: every list of the decoded section is the stored one, item by item.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::ink::*;
use crate::tags::{bits32, tag_def};
use crate::term::table0;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::contents::*;
use onenote_parser::page::*;
use onenote_parser::section::Section;

const ITEMS: u32 = 3;
const RULE: u32 = 0x14001CCB;

fn img(id: Ex, v: u32) -> Obj {
    Obj::new(id, J_IMAGE).u32(0x14001C1C, v)
}
fn el(id: Ex, v: u32) -> Obj {
    element0(id, &[]).u32(RULE, v)
}
fn grp(id: Ex, items: &[Ex]) -> Obj {
    Obj::new(id, J_GROUP).u32(0x14001D7A, 1).u8(0x0C001C03, 1).oidv(0x24001C20, items)
}
fn rule(i: &OutlineItem) -> u32 {
    // a group stands for the element in it
    let e = match i {
        OutlineItem::Element(e) => e,
        OutlineItem::Group(g) => {
            vp::check(g.outlines().len() == 1, "group items");
            match &g.outlines()[0] {
                OutlineItem::Element(e) => e,
                _ => vp::fail("group in a group"),
            }
        }
    };
    bitsof(e.list_spacing())
}
fn bitsof(v: Option<f32>) -> u32 {
    match v {
        Some(v) => v.to_bits(),
        None => vp::fail("value missing"),
    }
}
/// One content of kind `k` with the value `v`; `id` and the ids after it are its own.
fn content(k: u64, id: Ex, v: u32) -> Vec<Obj> {
    let nx = Ex { n: id.n + 1, ..id };
    match k {
        0 => vec![img(id, v)],
        1 => vec![text0(id, nx).u32(0x1400342E, v), style0(nx)],
        3 => vec![Obj::new(id, J_INK).u32(0x14001C14, v)],
        _ => vec![
            Obj::new(id, J_FILE).u32(0x14001D7A, 1).oid(0x20001D9B, nx).s(0x1C001D9C, "f").u32(0x14001C1C, v),
            Obj::new(nx, J_FILE_CONTAINER).with_blob(ex(0x60, 1)),
        ],
    }
}
fn content_value(c: &Content, k: u64) -> u32 {
    match k {
        0 => bitsof(some(c.image(), "image").layout_max_height()),
        1 => some(c.rich_text(), "text").paragraph_space_before().to_bits(),
        3 => bitsof(some(c.ink(), "ink").offset_horizontal()),
        _ => bitsof(some(c.embedded_file(), "file").layout_max_height()),
    }
}
fn page_value(c: &PageContent, k: u64) -> u32 {
    match k {
        0 => bitsof(some(c.image(), "image").layout_max_height()),
        1 => bitsof(some(c.outline(), "outline").list_spacing()),
        3 => bitsof(some(c.ink(), "ink").offset_horizontal()),
        _ => bitsof(some(c.embedded_file(), "file").layout_max_height()),
    }
}

/// The document for list `what` with items `seq` (indices below `ITEMS`), item `i` carrying `v[i]`.
fn doc_of(what: u64, seq: &[usize], v: &[u32], back: bool) -> Store {
    let at = |i: usize| po(0, 1000 + 10 * i as u32);
    let ids: Vec<Ex> = seq.iter().map(|i| at(*i)).collect();
    let mut more = vec![];
    let mut top = vec![];
    let all = 0..ITEMS as usize;
    match what {
        0 => {
            for i in all {
                let k = [0, 1, 4][i];
                if k == 1 {
                    more.push(outline0(at(i), &[]).u32(RULE, v[i]));
                } else {
                    more.append(&mut content(k, at(i), v[i]));
                }
            }
            return fin(one_page(page_node(0, &ids), rev(more, back)));
        }
        1 | 2 | 4 | 8 => {
            for i in all {
                if i == 1 {
                    let e = po(0, 900);
                    if what == 8 {
                        more.push(el(at(i), v[i]));
                    } else {
                        more.push(grp(at(i), &[e]));
                        more.push(el(e, v[i]));
                    }
                } else {
                    more.push(el(at(i), v[i]));
                }
            }
            match what {
                1 => top.push(outline0(po(0, 10), &ids)),
                2 => {
                    top.push(outline0(po(0, 10), &[po(0, 11)]));
                    top.push(grp(po(0, 11), &ids));
                }
                4 => {
                    top.push(outline0(po(0, 10), &[po(0, 11)]));
                    top.push(element0(po(0, 11), &[]).oidv(0x24001C20, &ids));
                }
                _ => {
                    top.push(table0(po(0, 12), &[po(0, 13)]));
                    top.push(Obj::new(po(0, 13), J_ROW).oidv(0x24001C20, &[po(0, 14)]));
                    top.push(cell0(po(0, 14), &ids));
                }
            }
        }
        3 | 16 => {
            for i in all {
                more.append(&mut content(if what == 3 { [0, 1, 4] } else { [1, 3, 1] }[i], at(i), v[i]));
            }
            top.push(element0(po(0, 11), &ids));
        }
        5 => {
            for i in all {
                more.push(Obj::new(at(i), J_LIST).u32(0x14001D7A, 1).v(0x1C001C1A, &[1, 0, b'x', 0]).u32(0x14001CB7, v[i]));
            }
            top.push(element0(po(0, 11), &[]).oidv(0x24001C26, &ids));
        }
        6 => {
            for i in all {
                let c = po(0, 900 + i as u32);
                more.push(Obj::new(at(i), J_ROW).oidv(0x24001C20, &[c]));
                more.push(cell0(c, &[]).u32(0x14001C1B, v[i]));
            }
            top.push(table0(po(0, 12), &ids));
        }
        7 => {
            for i in all {
                more.push(cell0(at(i), &[]).u32(0x14001C1B, v[i]));
            }
            top.push(table0(po(0, 12), &[po(0, 13)]));
            top.push(Obj::new(po(0, 13), J_ROW).oidv(0x24001C20, &ids));
        }
        9 => {
            for i in all {
                more.push(style0(at(i)).u32(0x14001C3B, v[i]));
            }
            more.push(style0(po(0, 13)));
            let mut x = vec![];
            for (n, _) in seq.iter().enumerate() {
                x.extend_from_slice(&(v[0] ^ n as u32).to_le_bytes());
            }
            top.push(text0(po(0, 12), po(0, 13)).oidv(0x24001E13, &ids).v(0x1C001E12, &x));
        }
        10..=13 => {
            let mut o = match what {
                10 => text0(po(0, 12), po(0, 13)),
                11 => table0(po(0, 12), &[]),
                12 => Obj::new(po(0, 12), J_IMAGE),
                _ => Obj::new(po(0, 12), J_FILE).u32(0x14001D7A, 1).oid(0x20001D9B, po(0, 15)).s(0x1C001D9C, "f"),
            };
            more.push(style0(po(0, 13)));
            more.push(Obj::new(po(0, 15), J_FILE_CONTAINER).with_blob(ex(0x60, 1)));
            let mut sets = vec![];
            for (n, i) in seq.iter().enumerate() {
                let mut p = PS::new();
                p.id(0x20003488).u32(0x1400346E, 1).u32(0x1400346F, v[*i] ^ n as u32).u16(0x10003470, 0);
                sets.push(p);
            }
            o = o.sets(0x40003489, 0x44000811, &sets);
            for i in seq {
                o.addref(at(*i));
            }
            for i in all {
                more.push(tag_def(at(i), ["d0", "d1", "d2"][i]));
            }
            top.push(o);
        }
        14 => {
            for i in all {
                more.push(stroke0(at(i), po(0, 900 + i as u32), &[4, 2, 4]));
                more.push(sprops0(po(0, 900 + i as u32)));
                let o = more.last_mut().unwrap();
                let n = o.ps.vals.0.len();
                // the first value is the height
                let _ = n;
                o.ps.vals.0[0..4].copy_from_slice(&v[i].to_le_bytes());
            }
            top.push(ink0(po(0, 12), po(0, 20)));
            top.push(inkdata0(po(0, 20), &ids));
        }
        15 => {
            for i in all {
                more.push(Obj::new(at(i), J_IFRAME).s(0x1C0035F3, "u").u32(0x140035F2, v[i]));
            }
            top.push(Obj::new(po(0, 12), J_IMAGE).oidv(0x24001C1F, &ids));
        }
        17 => {
            for i in all {
                more.push(outline0(at(i), &[]).u32(RULE, v[i]));
            }
            more.push(Obj::new(po(0, 20), J_TITLE).u32(0x14001D7A, 1).oidv(0x24001C20, &ids).u32(0x14001C14, 0).u32(0x14001C15, 0));
            return fin(one_page(page_node(0, &[]).oidv(0x24001D5F, &[po(0, 20)]), rev(more, back)));
        }
        18 => {
            // widths, locks, indents: values in a vector
            let n = seq.len();
            let mut w = vec![n as u8];
            let mut ind = (n as u32).to_le_bytes().to_vec();
            let mut lk = vec![n as u8];
            for (k, i) in seq.iter().enumerate() {
                w.extend_from_slice(&(v[*i] ^ k as u32).to_le_bytes());
                ind.extend_from_slice(&(v[*i] ^ k as u32).to_le_bytes());
                lk.push(v[*i] as u8 ^ k as u8);
            }
            let mut c = Obj::new(po(0, 14), J_CELL).oidv(0x24001C20, &[]);
            c = c.v(0x1C001C12, &ind);
            top.push(table0(po(0, 12), &[po(0, 13)]).v(0x1C001D66, &w).v(0x1C001D7D, &lk));
            top.push(Obj::new(po(0, 13), J_ROW).oidv(0x24001C20, &[po(0, 14)]));
            top.push(c);
        }
        _ => {
            // 19: page series of the section; 20: pages of a series
            let mut s = if what == 19 {
                let ids: Vec<Ex> = seq.iter().map(|i| so(10 + *i as u32)).collect();
                let mut s = section(section_meta(), vec![]);
                s.groups[1].objs[0] = section_node(&ids);
                for i in all.clone() {
                    s.groups[1].objs.push(series(so(10 + i as u32), &[page_cell(i as u8)]));
                }
                s
            } else {
                let cells: Vec<Cell> = seq.iter().map(|i| page_cell(*i as u8)).collect();
                section(section_meta(), vec![series(so(3), &cells)])
            };
            if back {
                s.groups[1].objs.reverse();
            }
            for i in all {
                let i = if back { 2 - i } else { i };
                let p = page_node(i as u8, &[]).u32(0x14001C02, v[i]);
                s.add_space(page_cell(i as u8), 0x30 + i as u8 * 3, &page_roots(i as u8), page_objs(i as u8, p, vec![]));
            }
            return s;
        }
    }
    top.append(&mut more);
    let v = rev(top, back);
    fin(match what {
        1 | 2 | 4 => one_page(page_node(0, &[po(0, 10)]), v),
        3 | 5 | 16 => one_page(page_node(0, &[po(0, 10)]), with(v, outline0(po(0, 10), &[po(0, 11)]))),
        _ => in_element(&[po(0, 12)], v),
    })
}
fn with(mut v: Vec<Obj>, o: Obj) -> Vec<Obj> {
    v.push(o);
    v
}
fn rev(mut v: Vec<Obj>, back: bool) -> Vec<Obj> {
    if back {
        v.reverse();
    }
    v
}
fn fin(mut s: Store) -> Store {
    s.blobs.push((ex(0x60, 1), vec![1, 2]));
    s
}
/// The values of the list, in the decoded order; `seq` tells which kind is expected at each place.
fn values(what: u64, s: &Section, seq: &[usize]) -> Vec<u32> {
    if what == 19 {
        return s.page_series().iter().map(|s| {
            vp::check(s.pages().len() == 1, "pages of a series");
            bitsof(s.pages()[0].height())
        }).collect();
    }
    if what == 20 {
        return s.page_series()[0].pages().iter().map(|p| bitsof(p.height())).collect();
    }
    let p = page1(s);
    let n = seq.len();
    match what {
        0 => {
            vp::check(p.contents().len() == n, "number of items");
            p.contents().iter().zip(seq).map(|(c, i)| page_value(c, [0, 1, 4][*i])).collect()
        }
        1 => outline1(p).items().iter().map(rule).collect(),
        2 => match &outline1(p).items()[0] {
            OutlineItem::Group(g) => g.outlines().iter().map(rule).collect(),
            _ => vp::fail("group"),
        },
        3 | 16 => {
            let c = elem1(outline1(p)).contents();
            vp::check(c.len() == n, "number of items");
            c.iter().zip(seq).map(|(c, i)| content_value(c, if what == 3 { [0, 1, 4] } else { [1, 3, 1] }[*i])).collect()
        }
        4 => elem1(outline1(p)).children().iter().map(rule).collect(),
        5 => elem1(outline1(p)).list_contents().iter().map(|l| l.list_restart().unwrap() as u32).collect(),
        6 => some(content1(s).table(), "table").contents().iter().map(|r| {
            vp::check(r.contents().len() == 1, "cells");
            bitsof(r.contents()[0].layout_max_width())
        }).collect(),
        7 => some(content1(s).table(), "table").contents()[0].contents().iter().map(|c| bitsof(c.layout_max_width())).collect(),
        8 => some(content1(s).table(), "table").contents()[0].contents()[0].contents().iter().map(|e| bitsof(e.list_spacing())).collect(),
        9 => some(content1(s).rich_text(), "text").text_run_formatting().iter().map(|f| f.language_code().unwrap()).collect(),
        10..=13 => {
            let c = content1(s);
            let t = match what {
                10 => some(c.rich_text(), "text").note_tags(),
                11 => some(c.table(), "table").note_tags(),
                12 => some(c.image(), "image").note_tags(),
                _ => some(c.embedded_file(), "file").note_tags(),
            };
            vp::check(t.len() == n, "number of items");
            t.iter().enumerate().map(|(k, t)| {
                vp::check(some(t.definition(), "definition").label() == ["d0", "d1", "d2"][seq[k]], "tag definition out of order");
                bits32(t.completed_at().unwrap()) ^ k as u32
            }).collect()
        }
        14 => some(content1(s).ink(), "ink").ink_strokes().iter().map(|s| s.height().to_bits()).collect(),
        15 => some(content1(s).image(), "image").embeds().iter().map(|e| e.embed_type().unwrap()).collect(),
        17 => some(p.title(), "title").contents().iter().map(|o| bitsof(o.list_spacing())).collect(),
        _ => {
            let t = some(content1(s).table(), "table");
            vp::check(t.cols_locked().len() == n, "number of locks");
            vp::check(t.col_widths().len() == n, "number of widths");
            let c = &t.contents()[0].contents()[0];
            let ind = c.outline_indent_distance().value();
            vp::check(ind.len() == n, "number of indents");
            (0..n).map(|k| {
                let v = t.col_widths()[k].to_bits();
                vp::check(ind[k].to_bits() == v, "indents out of order");
                vp::check(t.cols_locked()[k] == v as u8, "locks out of order");
                v ^ k as u32
            }).collect()
        }
    }
}

// Every sequence (with repetitions) of `a % 10` items out of three, stored in either direction; `a / 10`: the list.
entry!(o_seq, |a| {
    let seq: Vec<usize> = (0..a % 10).map(|_| vp::choose(ITEMS as u64) as usize).collect();
    run(a / 10, &seq);
});
// A list of `a % 100000` items.
entry!(o_long, |a| {
    let n = a as usize % 100000;
    if n > 5000 {
        vp::hash_mode(1);
    }
    let seq: Vec<usize> = (0..n).map(|k| [0, 1, 2, 2, 0, 1, 0][k % 7]).collect();
    run(a / 100000, &seq);
});
fn run(what: u64, seq: &[usize]) {
    let n = seq.len();
    let v = [vp::u32(), vp::u32(), vp::u32()];
    let r = parse(&doc_of(what, seq, &v, n < 1000 && vp::flag()));
    let s = must(r, "list rejected");
    let got = values(what, &s, seq);
    vp::check(got.len() == n, "number of items");
    for (k, i) in seq.iter().enumerate() {
        vp::check(got[k] == v[*i], "items out of order");
    }
    if what == 9 {
        let x = some(content1(&s).rich_text(), "text").text_run_indices();
        vp::check(x.len() == n, "number of run indices");
        for k in 0..n {
            vp::check(x[k] == v[0] ^ k as u32, "run indices out of order");
        }
    }
    vp::cover("ok");
}
