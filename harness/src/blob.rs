//! Image and file data.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::store::*;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::contents::Content;

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
fn file_of(id: Ex, container: Ex) -> Obj {
    Obj::new(id, J_FILE).u32(0x14001D7A, 1).oid(0x20001D9B, container).s(0x1C001D9C, "f")
}

// `n` bytes of data in an image, an XPS container and a file.
entry!(p_bytes, |n| {
    let b: Vec<Vec<u8>> = (0..3).map(|_| vp::vec(n as usize)).collect();
    let mut s = in_element(
        &[po(0, 21), po(0, 22), po(0, 23)],
        vec![
            Obj::new(po(0, 31), J_PICTURE).with_blob(ex(0x60, 1)),
            image_of(po(0, 21), po(0, 31)),
            image_of(po(0, 22), po(0, 32)),
            file_of(po(0, 23), po(0, 33)),
            Obj::new(po(0, 32), J_XPS).with_blob(ex(0x60, 2)),
            Obj::new(po(0, 33), J_FILE_CONTAINER).with_blob(ex(0x60, 3)),
        ],
    );
    for (i, d) in b.iter().enumerate() {
        s.blobs.push((ex(0x60, 1 + i as u32), d.clone()));
    }
    let s = must(parse(&s), "data rejected");
    let c = elem1(outline1(page1(&s))).contents();
    vp::check(c.len() == 3, "contents");
    for i in 0..2 {
        let d = some(some(c[i].image(), "image").data(), "image without data");
        vp::check(eq(d, &b[i]), "image data");
    }
    vp::check(eq(some(c[2].embedded_file(), "file").data(), &b[2]), "file data");
    vp::cover("ok");
});

// Three images and files (`a % 10` files), each with any of `a / 100` containers (images: or none), each container with any of three blobs or
// none; the containers before, after or between the objects, the partitions of each container in any order.
entry!(p_assign, |a| {
    let files = a % 10;
    let is_file = |i: u64| i < files;
    let mut b: Vec<Vec<u8>> = vec![];
    for i in 0..3usize {
        b.push(vp::vec(3 + i % 2));
    }
    let nc = a / 100;
    // the containers of each kind and what they hold
    let mut of: [[u64; 3]; 2] = [[3; 3]; 2];
    let mut l: Vec<Obj> = vec![];
    for kind in 0..2u64 {
        if (kind == 0 && files == 3) || (kind == 1 && files == 0) {
            continue;
        }
        for c in 0..nc {
            let d = vp::choose(4);
            of[kind as usize][c as usize] = d;
            let id = po(0, 30 + 10 * kind as u32 + c as u32);
            let mut o = Obj::new(id, if kind == 1 { J_FILE_CONTAINER } else if c == 1 { J_XPS } else { J_PICTURE });
            o.porder = (a / 10 % 10) as u8;
            if d < 3 {
                o = o.with_blob(ex(0x60, 1 + d as u32));
            }
            l.push(o);
        }
    }
    let mut at = [0u64; 3];
    let mut bad = false;
    for i in 0..3u64 {
        let id = po(0, 21 + i as u32);
        let k = is_file(i) as usize;
        let c = vp::choose(if k == 1 { nc } else { nc + 1 });
        at[i as usize] = c;
        let o = if k == 1 {
            bad |= of[1][c as usize] == 3;
            file_of(id, po(0, 40 + c as u32))
        } else if c == nc {
            Obj::new(id, J_IMAGE)
        } else {
            image_of(id, po(0, 30 + c as u32))
        };
        if i == 1 {
            l.insert(0, o);
        } else {
            l.push(o);
        }
    }
    let mut s = in_element(&[po(0, 21), po(0, 22), po(0, 23)], l);
    for i in [2usize, 0, 1] {
        s.blobs.push((ex(0x60, 1 + i as u32), b[i].clone()));
    }
    let r = parse(&s);
    if bad {
        return must_fail(r, "file without data accepted");
    }
    let s = must(r, "data rejected");
    let c = elem1(outline1(page1(&s))).contents();
    vp::check(c.len() == 3, "contents");
    for i in 0..3usize {
        if is_file(i as u64) {
            let d = some(c[i].embedded_file(), "file").data();
            vp::check(eq(d, &b[of[1][at[i] as usize] as usize]), "file data");
        } else {
            let d = some(c[i].image(), "image").data();
            if at[i] == nc {
                vp::check(d.is_none(), "image without container has data");
            } else {
                let w = of[0][at[i] as usize];
                let d = some(d, "image without data");
                vp::check(if w == 3 { d.is_empty() } else { eq(d, &b[w as usize]) }, "image data");
            }
        }
    }
    vp::cover("ok");
});

// A container that refers to data the file does not hold; data that nothing refers to.
entry!(p_missing, |k| {
    let mut s = in_element(
        &[po(0, 21), po(0, 22)],
        vec![
            image_of(po(0, 21), po(0, 31)),
            if k < 2 { file_of(po(0, 22), po(0, 32)) } else { image_of(po(0, 22), po(0, 32)) },
            Obj::new(po(0, 31), J_PICTURE).with_blob(ex(0x60, 1)),
            Obj::new(po(0, 32), if k < 2 { J_FILE_CONTAINER } else { J_PICTURE }).with_blob(ex(0x60, 2)),
        ],
    );
    let x = vp::bytes::<4>();
    s.blobs.push((ex(0x60, 3), x.to_vec()));
    s.blobs.push((ex(0x60, 1 + (k % 2) as u32), x.to_vec()));
    must_fail(parse(&s), "reference to missing data accepted");
});

// The same container and data identifiers in two pages; data identifiers that differ in one part only.
entry!(p_pages, |_| {
    let mut b: Vec<Vec<u8>> = vec![];
    for _ in 0..4 {
        b.push(vp::vec(4));
    }
    let ids = [ex(0x60, 1), ex(0x61, 1), ex(0x60, 2), ex(0x61, 2)];
    let mut s = section(section_meta(), vec![series(so(3), &[page_cell(0), page_cell(1)])]);
    let mut w = [0usize; 2];
    for i in 0..2u8 {
        w[i as usize] = vp::choose(4) as usize;
        let mut p = page_node(0, &[po(0, 11)]);
        p.id = po(0, 3);
        s.add_space(page_cell(i), 0x30 + i, &page_roots(0), page_objs(0, p, vec![
            Obj::new(po(0, 12), J_PICTURE).with_blob(ids[w[i as usize]]),
            image_of(po(0, 11), po(0, 12)),
        ]));
    }
    for i in 0..4 {
        s.blobs.push((ids[i], b[i].clone()));
    }
    let s = must(parse(&s), "two pages rejected");
    for i in 0..2 {
        let p = &s.page_series()[0].pages()[i];
        vp::check(p.contents().len() == 1, "contents");
        let d = some(some(p.contents()[0].image(), "image").data(), "image without data");
        vp::check(eq(d, &b[w[i]]), "image data of another container");
    }
    vp::cover("ok");
});

// A newer revision gives a container other data; the older one must not be used.
entry!(p_revised, |_| {
    let (x, y) = (vp::vec(4), vp::vec(3));
    let with = vp::flag();
    let mut s = rich(1, 2, &x);
    let mut o = Obj::new(po(0, 12), J_PICTURE);
    if with {
        o = o.with_blob(ex(0x60, 2));
    }
    s.blobs.push((ex(0x60, 2), y.clone()));
    let base = s.revs[2].rev_id;
    let top = add_rev(&mut s, 0x70, 1, base, &[], vec![o], true);
    s.manifests[2].1 = top;
    let s = must(parse(&s), "revised container rejected");
    let p = page1(&s);
    vp::check(p.contents().len() == 1, "contents");
    let d = some(some(p.contents()[0].image(), "image").data(), "image without data");
    vp::check(if with { eq(d, &y) } else { d.is_empty() }, "data of an older revision");
    vp::cover("ok");
});

// The same image at several places: page, outline element, table cell.
entry!(p_places, |_| {
    let x = vp::vec(5);
    let mut l = vec![image_of(po(0, 21), po(0, 22)), Obj::new(po(0, 22), J_PICTURE).with_blob(ex(0x60, 1))];
    let f = vp::vec(2);
    l.push(file_of(po(0, 23), po(0, 24)));
    l.push(Obj::new(po(0, 24), J_FILE_CONTAINER).with_blob(ex(0x60, 2)));
    l.push(outline0(po(0, 10), &[po(0, 11)]));
    l.push(element0(po(0, 11), &[po(0, 23), po(0, 21)]));
    let mut s = one_page(page_node(0, &[po(0, 21), po(0, 10), po(0, 23)]), l);
    s.blobs.push((ex(0x60, 1), x.clone()));
    s.blobs.push((ex(0x60, 2), f.clone()));
    let s = must(parse(&s), "shared image rejected");
    let c = page1(&s).contents();
    vp::check(c.len() == 3, "contents");
    vp::check(eq(some(some(c[0].image(), "image").data(), "no data"), &x), "image on the page");
    vp::check(eq(some(c[2].embedded_file(), "file").data(), &f), "file on the page");
    let o = some(c[1].outline(), "outline");
    let e = some(o.items()[0].element(), "element").contents();
    vp::check(e.len() == 2, "contents");
    let d = match &e[0] {
        Content::EmbeddedFile(f) => f.data(),
        _ => vp::fail("file"),
    };
    vp::check(eq(d, &f), "file in an element");
    vp::check(eq(some(some(e[1].image(), "image").data(), "no data"), &x), "image in an element");
    vp::cover("ok");
});

// Data whose partitions list objects, cells and other blobs as references.
entry!(p_listed, |_| {
    let b: Vec<Vec<u8>> = (0..2).map(|_| vp::vec(3)).collect();
    let all = [po(0, 22), ex(0x60, 1), ex(0x60, 2), ex(0x61, 9)];
    let mut pic = Obj::new(po(0, 31), J_PICTURE).with_blob(ex(0x60, 2));
    let mut fc = Obj::new(po(0, 32), J_FILE_CONTAINER).with_blob(ex(0x60, 1));
    {
        let o = if vp::flag() { &mut fc } else { &mut pic };
        let r = if vp::flag() { &mut o.brefs } else { &mut o.mrefs };
        let k = vp::choose(4) as usize;
        for i in 0..vp::choose(3) as usize {
            r.0.push(all[(k + i) % 4]);
        }
        for i in 0..vp::choose(3) as u8 {
            r.1.push(page_cell(i));
        }
    }
    pic.porder = vp::choose(6) as u8;
    let mut s = in_element(&[po(0, 21), po(0, 22)], vec![image_of(po(0, 21), po(0, 31)), pic, file_of(po(0, 22), po(0, 32)), fc]);
    for i in 0..2 {
        s.blobs.push((ex(0x60, 1 + i as u32), b[i].clone()));
    }
    let s = must(parse(&s), "data rejected");
    let c = elem1(outline1(page1(&s))).contents();
    vp::check(c.len() == 2, "contents");
    vp::check(eq(some(some(c[0].image(), "image").data(), "image without data"), &b[1]), "image data");
    vp::check(eq(some(c[1].embedded_file(), "file").data(), &b[0]), "file data");
    vp::cover("ok");
});
