//! A page that has an object of every kind and a reference of every kind.
use crate::bld::*;
use crate::dig;
use crate::doc::*;
use crate::enc::*;
use crate::ink::{ink0, inkdata0, sprops0, stroke0};
use crate::tags::tag_def;
use crate::term::{row0, table0};
use crate::wire::*;
use crate::{entry, vp};

const KIDS: u32 = 0x24001C20;
const MOD: u32 = 0x14001D7A;

/// Free values of the document.
#[derive(Clone)]
pub struct V {
    pub n: [u32; 10],
    pub img: Vec<u8>,
    pub file: Vec<u8>,
}
impl V {
    pub fn fixed() -> V {
        V { n: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], img: vec![1, 2, 3], file: vec![4, 5, 6, 7] }
    }
    pub fn any() -> V {
        let mut n = [0; 10];
        for v in &mut n {
            *v = vp::u32();
        }
        V { n, img: vp::vec(3), file: vp::vec(4) }
    }
}
fn p(n: u32) -> Ex {
    po(0, n)
}
fn tagged(o: Obj, def: Ex, v: u32) -> Obj {
    let mut t = PS::new();
    t.id(0x20003488).u32(0x1400346E, 1).u16(0x10003470, 1).u32(0x1400346F, v);
    let mut o = o.sets(0x40003489, 0x44000811, &[t]);
    o.addref(def);
    o
}
/// The objects of the page.
pub fn objs(v: &V) -> Vec<Obj> {
    let page = Obj::new(p(3), J_PAGE)
        .s(0x1C001D75, "author")
        .u32(0x14001C02, v.n[0])
        .oidv(KIDS, &[p(10), p(30), p(34), p(36)])
        .oidv(0x24001D5F, &[p(20)]);
    let mut l = page_objs(0, page, vec![]);
    l[1] = page_meta(po(0, 2)).u32(0x14001DFF, v.n[1]);
    l.push(Obj::new(p(20), J_TITLE).u32(MOD, 1).oidv(KIDS, &[p(21)]).u32(0x14001C14, v.n[2]).u32(0x14001C15, 0));
    l.push(outline0(p(21), &[p(22)]));
    l.push(element0(p(22), &[p(23)]));
    l.push(text0(p(23), p(24)).s(0x1C001C22, "Title"));
    l.push(style0(p(24)));
    l.push(outline0(p(10), &[p(12), p(13)]).u32(0x14001C14, v.n[3]));
    l.push(
        element0(p(12), &[p(40), p(50), p(60), p(46)])
            .oidv(0x24001C26, &[p(16)])
            .oidv(KIDS, &[p(15)]),
    );
    l.push(Obj::new(p(13), J_GROUP).u32(MOD, 1).u8(0x0C001C03, 1).oidv(KIDS, &[p(14)]));
    l.push(element0(p(14), &[]));
    l.push(element0(p(15), &[]));
    l.push(
        Obj::new(p(16), J_LIST)
            .u32(MOD, 1)
            .v(0x1C001C1A, &[2, 0, b'a', 0, b'b', 0])
            .u32(0x14001CB7, v.n[4]),
    );
    // a paragraph with two runs and a tag
    l.push(tagged(
        text0(p(40), p(41)).oidv(0x24001E13, &[p(42), p(43)]).v(0x1C001E12, &[1, 0, 0, 0]).s(0x1C001C22, "text"),
        p(45),
        v.n[5],
    ));
    l.push(style0(p(41)));
    l.push(style0(p(42)).s(0x1C001C0A, "A"));
    l.push(style0(p(43)).s(0x1C001C0A, "B"));
    l.push(tag_def(p(45), "tag"));
    // a paragraph of ink
    let mut run = PS::new();
    run.u32(0x1400349E, 1);
    l.push(
        text0(p(46), p(41))
            .oidv(0x24001E13, &[p(47)])
            .s(0x1C001C22, "i")
            .oidv(0x24003458, &[p(48)])
            .sets(0x40003499, 0x44000811, &[run]),
    );
    l.push(style0(p(47)).b(0x08001E22, true));
    l.push(inkdata0(p(48), &[p(49)]));
    l.push(stroke0(p(49), p(39), &[4, 2, 4]));
    l.push(table0(p(50), &[p(51)]).u32(0x14001C14, 0));
    l.push(row0(p(51), &[p(52)]));
    l.push(cell0(p(52), &[p(53)]).u32(0x14001C1B, v.n[6]));
    l.push(element0(p(53), &[]));
    l.push(Obj::new(p(30), J_IMAGE).oid(0x20001C3F, p(31)).u32(0x14001C1B, v.n[7]));
    l.push(Obj::new(p(31), J_PICTURE).with_blob(ex(0x60, 1)));
    l.push(Obj::new(p(60), J_IMAGE).oidv(0x24001C1F, &[p(61)]));
    l.push(Obj::new(p(61), J_IFRAME).s(0x1C0035F3, "url"));
    l.push(
        Obj::new(p(34), J_FILE)
            .u32(MOD, 1)
            .oid(0x20001D9B, p(35))
            .s(0x1C001D9C, "f")
            .u32(0x14001C1C, v.n[8]),
    );
    l.push(Obj::new(p(35), J_FILE_CONTAINER).with_blob(ex(0x60, 2)));
    l.push(ink0(p(36), p(37)).u32(0x14001C14, v.n[9]));
    l.push(inkdata0(p(37), &[p(38)]));
    l.push(stroke0(p(38), p(39), &[4, 6, 8]));
    l.push(sprops0(p(39)));
    l
}
pub fn full(v: &V) -> Store {
    of(objs(v), v)
}
pub fn of(l: Vec<Obj>, v: &V) -> Store {
    let mut s = section(section_meta(), vec![series(so(3), &[page_cell(0)])]);
    s.add_space(page_cell(0), 0x30, &page_roots(0), l);
    s.blobs.push((ex(0x60, 1), v.img.clone()));
    s.blobs.push((ex(0x60, 2), v.file.clone()));
    s
}

// The document decodes, and decodes alike with its objects stored in the opposite order.
entry!(k_full, |_| {
    let v = V::any();
    let a = must(parse(&full(&v)), "document rejected");
    let mut l = objs(&v);
    l.reverse();
    let b = must(parse(&of(l, &v)), "document with its objects in the opposite order rejected");
    let (a, b) = (dig::of(&a), dig::of(&b));
    dig::same(&a, &b, "order of the objects of a group");
    vp::out(a.0.len() as u64);
    for x in a.0 {
        vp::out(x);
    }
    vp::cover("ok");
});

/// What the `i`-th reference of object `o` may designate: None: anything, it is not followed;
/// an empty list: content of any kind, unknown kinds included.
fn want(o: u32, i: usize) -> Option<&'static [u32]> {
    Some(match (o, i) {
        (1, _) => &[J_PAGE],
        (3, 4) => &[J_TITLE],
        (3, _) => &[],
        (20, _) => &[J_OUTLINE],
        (21, _) | (10, _) | (13, _) => &[J_ELEMENT, J_GROUP],
        (12, 0..4) | (22, 0) => &[],
        (12, 4 | 5) | (22, _) | (14, _) | (15, _) | (53, _) => return None,
        (12, 6) => &[J_LIST],
        (12, _) => &[J_ELEMENT, J_GROUP],
        (40, 3) => &[J_TAG_DEF],
        (46, 2) => &[J_INK_DATA],
        (23 | 40 | 46, _) => &[J_STYLE],
        (50, _) => &[J_ROW],
        (51, _) => &[J_CELL],
        (52, _) => &[J_ELEMENT],
        (30, _) => &[J_PICTURE, J_XPS],
        (60, _) => &[J_IFRAME],
        (34, _) => &[J_FILE_CONTAINER],
        (36, _) => &[J_INK_DATA],
        (48 | 37, _) => &[J_STROKE],
        (49 | 38, _) => &[J_STROKE_PROPS],
        _ => vp::fail("harness: unexpected reference"),
    })
}
const ON_PAGE: [u32; 4] = [J_OUTLINE, J_IMAGE, J_FILE, J_INK];
const IN_ELEM: [u32; 5] = [J_TEXT, J_TABLE, J_IMAGE, J_FILE, J_INK];

/// The content at the place of reference `i` of object `o` is shown as unknown.
fn is_unknown(s: &onenote_parser::section::Section, o: u32, i: usize) -> bool {
    use onenote_parser::contents::*;
    use onenote_parser::page::*;
    let p = page1(s);
    if o == 3 {
        return matches!(p.contents()[i], PageContent::Unknown);
    }
    let out = if o == 22 { &p.title().unwrap().contents()[0] } else { p.contents()[0].outline().unwrap() };
    matches!(out.items()[0].element().unwrap().contents()[i], Content::Unknown)
}

// One reference of the page is redirected to any object, or to none. `k`: every 8th reference from the k-th.
entry!(k_to, |k| {
    let v = V::fixed();
    let mut l = objs(&v);
    let mut all = vec![];
    for (j, o) in l.iter().enumerate() {
        for i in 0..o.oids.len() {
            all.push((j, i));
        }
    }
    let n = (all.len() as u64 + 7 - k) / 8;
    let (j, i) = all[(k + 8 * vp::choose(n)) as usize];
    let o = l[j].id.n;
    let was = l[j].oids[i].to.n;
    let t = vp::u16() as u32;
    vp::assume(t < 1024);
    let nil = vp::flag();
    l[j].oids[i].to = if nil { NIL } else { Ex { n: t, form: 10, ..p(0) } };
    let kinds = l.iter().map(|o| (o.id.n, o.jcid)).collect::<Vec<_>>();
    let r = parse(&of(l, &v));
    let mut jc = 0;
    if !nil {
        for (n, k) in kinds {
            if n == t {
                jc = k;
            }
        }
    }
    match want(o, i) {
        None => {
            must(r, "reference that is not followed");
            vp::cover("other");
        }
        Some(w) if jc == 0 => {
            must_fail(r, if w.is_empty() { "reference to missing content accepted" } else { "reference to a missing object accepted" });
        }
        Some(w) if w.is_empty() => {
            let c: &[u32] = if o == 3 { &ON_PAGE } else { &IN_ELEM };
            if !c.contains(&jc) {
                let s = must(r, "content of an unsupported kind rejected");
                vp::check(is_unknown(&s, o, i), "content of an unsupported kind");
            } else if t == was {
                must(r, "original reference rejected");
            }
            vp::cover("other");
        }
        Some(w) => {
            if !w.contains(&jc) {
                return must_fail(r, "reference to an object of another kind accepted");
            }
            if t == was {
                must(r, "original reference rejected");
            }
            vp::cover("other");
        }
    }
});

// One object of the page has another kind. `k`: every 8th object from the k-th.
entry!(k_kind, |k| {
    let v = V::fixed();
    let mut l = objs(&v);
    let n = (l.len() as u64 + 7 - k) / 8;
    let j = (k + 8 * vp::choose(n)) as usize;
    let was = l[j].jcid;
    let id = l[j].id.n;
    let jc = vp::u32();
    l[j].jcid = jc;
    // content kinds and those of outline items are decoded by their own rules
    let content = matches!(id, 10 | 30 | 34 | 36 | 40 | 46 | 50 | 60 | 23);
    let item = matches!(id, 12..=15 | 22);
    let r = parse(&of(l, &v));
    if jc == was {
        must(r, "original kind rejected");
        return vp::cover("other");
    }
    if content {
        // of another kind, known or not: never shown as what it was
        let (o, i) = match id {
            10 => (3, 0),
            30 => (3, 1),
            34 => (3, 2),
            36 => (3, 3),
            40 => (12, 0),
            50 => (12, 1),
            60 => (12, 2),
            46 => (12, 3),
            _ => (22, 0),
        };
        let c: &[u32] = if o == 3 { &ON_PAGE } else { &IN_ELEM };
        if let Ok(s) = r
            && !c.contains(&jc)
        {
            vp::check(is_unknown(&s, o, i), "content of another kind");
        }
        return vp::cover("other");
    }
    if item && (jc == J_ELEMENT || jc == J_GROUP) || id == 31 && jc == J_XPS {
        return vp::cover("other");
    }
    must_fail(r, "object of another kind accepted");
});

// Every object is needed. `k`: every 8th object from the k-th.
entry!(k_gone, |k| {
    let v = V::any();
    let mut l = objs(&v);
    let n = (l.len() as u64 + 7 - k) / 8;
    l.remove((k + 8 * vp::choose(n)) as usize);
    must_fail(parse(&of(l, &v)), "page without one of its objects accepted");
});

// The document in every combination of the widths of its integers, identifiers and headers.
entry!(k_forms, |_| {
    let v = V::any();
    let mut s = full(&v);
    let a = dig::of(&must(parse(&s), "document rejected"));
    let c = [0, 1, 2, 3, 4, 5, 6, 7, 9][vp::choose(9) as usize];
    let f = [0, 10, 17, 32][vp::choose(4) as usize];
    s.wide = vp::flag();
    set_forms(c, f, vp::flag(), vp::flag(), vp::flag());
    let r = parse(&s);
    set_forms(0, 0, false, false, false);
    dig::same(&a, &dig::of(&must(r, "document in another encoding rejected")), "document in another encoding");
    vp::cover("ok");
});

// One object (every 8th from the k-th) is revised: the document is what it is with the newer object in place of the
// older one. An older or unrelated revision repeats the older object.
entry!(k_rev, |k| {
    let mut v = V::any();
    let f = V::fixed();
    v.img = f.img.clone();
    v.file = f.file.clone();
    let old = objs(&f);
    let new = objs(&v);
    let n = (old.len() as u64 + 7 - k) / 8;
    let j = (k + 8 * vp::choose(n)) as usize;
    let mut mixed = old.clone();
    mixed[j] = new[j].clone();
    let a = dig::of(&must(parse(&of(mixed, &v)), "document rejected"));
    let mut s = of(old.clone(), &v);
    let mapping = s.manifests[2].0;
    let base = s.revs[2].rev_id;
    let way = vp::choose(4);
    let top = match way {
        // directly
        0 => crate::store::add_rev(&mut s, 0x70, 1, base, &[], vec![new[j].clone()], true),
        // with an empty revision in between
        1 => {
            let m = crate::store::add_rev(&mut s, 0x70, 2, base, &[], vec![], true);
            crate::store::add_rev(&mut s, 0x70, 1, m, &page_roots(0), vec![new[j].clone()], true)
        }
        // the older object again in between, and the newest repeats another one
        2 => {
            let m = crate::store::add_rev(&mut s, 0x70, 2, base, &page_roots(0), vec![old[j].clone()], true);
            let o = old[(j + 1) % old.len()].clone();
            crate::store::add_rev(&mut s, 0x70, 1, m, &[], vec![o, new[j].clone()], true)
        }
        // missing in the oldest one
        _ => {
            s.groups[2].objs.remove(j);
            crate::store::add_rev(&mut s, 0x70, 1, base, &[], vec![new[j].clone()], true)
        }
    };
    s.manifests[2] = (mapping, top);
    if vp::flag() {
        s.revs.reverse();
        s.groups.reverse();
    }
    dig::same(&a, &dig::of(&must(parse(&s), "revised document rejected")), "revised document");
    vp::cover("ok");
});

// The objects (every 8th from the k-th) are in a second group, or twice: in both.
entry!(k_groups, |k| {
    let v = V::any();
    let mut s = full(&v);
    let a = dig::of(&must(parse(&s), "document rejected"));
    let l = s.groups[2].objs.clone();
    let (mut x, mut y) = (vec![], vec![]);
    let both = vp::flag();
    for (i, o) in l.into_iter().enumerate() {
        if i as u64 % 8 == k {
            if both {
                x.push(o.clone());
            }
            y.push(o);
        } else {
            x.push(o);
        }
    }
    s.groups[2].objs = x;
    let g = ex(0x71, 1);
    s.groups.push(Group { id: g, objs: y, meta: None });
    if vp::flag() {
        s.revs[2].groups.insert(0, g);
    } else {
        s.revs[2].groups.push(g);
    }
    let mut e = s.elems();
    if vp::flag() {
        e.reverse();
    }
    let r = crate::store::parse_of(&s, &e);
    dig::same(&a, &dig::of(&must(r, "document in several groups rejected")), "document in several groups");
    vp::cover("ok");
});

// One object's kind or properties are declared but not there, or there but not declared.
entry!(k_undeclared, |k| {
    let v = V::any();
    let mut l = objs(&v);
    let n = (l.len() as u64 + 7 - k) / 8;
    let o = &mut l[(k + 8 * vp::choose(n)) as usize];
    let m = [1 << 4, 1 << 1, 1 << 4 | 1 << 1][vp::choose(3) as usize];
    if vp::flag() {
        o.undeclared = m;
    } else {
        o.undelivered = m;
    }
    must_fail(parse(&of(l, &v)), "object group with other declarations than data accepted");
});
