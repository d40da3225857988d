//! Note tags, inline maths.
use crate::bld::*;
use crate::doc::*;
use crate::enc::*;
use crate::wire::*;
use crate::{entry, vp};
use onenote_parser::contents::*;
use onenote_parser::property::note_tag::*;

const TAGS: u32 = 0x40003489;
const TAG_ELEM: u32 = 0x44000811;

/// Icon names ([MS-ONE] 2.3.86), by value.
pub static SHAPES: [&str; 144] = [
    "NoIcon", "GreenCheckBox", "YellowCheckBox", "BlueCheckBox", "GreenStarCheckBox", "YellowStarCheckBox", "BlueStarCheckBox", "GreenExclamationCheckBox", "YellowExclamationCheckBox", "BlueExclamationCheckBox", "GreenRightArrowCheckBox", "YellowRightArrowCheckBox", "BlueRightArrowCheckBox", "YellowStar", "BlueFollowUpFlag", "QuestionMark", "BlueRightArrow", "HighPriority", "ContactInformation", "Meeting", "TimeSensitive", "LightBulb", "Pushpin", "Home", "CommentBubble", "SmilingFace", "AwardRibbon", "YellowKey", "BlueCheckBox1", "BlueCircle1", "BlueCheckBox2", "BlueCircle2", "BlueCheckBox3", "BlueCircle3", "BlueEightPointStar", "BlueCheckMark", "BlueCircle", "BlueDownArrow", "BlueLeftArrow", "BlueSolidTarget", "BlueStar", "BlueSun", "BlueTarget", "BlueTriangle", "BlueUmbrella", "BlueUpArrow", "BlueXWithDots", "BlueX", "GreenCheckBox1", "GreenCircle1", "GreenCheckBox2", "GreenCircle2", "GreenCheckBox3", "GreenCircle3", "GreenEightPointStar", "GreenCheckMark", "GreenCircle", "GreenDownArrow", "GreenLeftArrow", "GreenRightArrow", "GreenSolidArrow", "GreenStar", "GreenSun", "GreenTarget", "GreenTriangle", "GreenUmbrella", "GreenUpArrow", "GreenXWithDots", "GreenX", "YellowCheckBox1", "YellowCircle1", "YellowCheckBox2", "YellowCircle2", "YellowCheckBox3", "YellowCircle3", "YellowEightPointStar", "YellowCheckMark", "YellowCircle", "YellowDownArrow", "YellowLeftArrow", "YellowRightArrow", "YellowSolidTarget", "YellowSun", "YellowTarget", "YellowTriangle", "YellowUmbrella", "YellowUpArrow", "YellowXWithDots", "YellowX", "FollowUpTodayFlag", "FollowUpTomorrowFlag", "FollowUpThisWeekFlag", "FollowUpNextWeekFlag", "NoFollowUpDateFlag", "BluePersonCheckBox", "YellowPersonCheckBox", "GreenPersonCheckBox", "BlueFlagCheckBox", "RedFlagCheckBox", "GreenFlagCheckBox", "RedSquare", "YellowSquare", "BlueSquare", "GreenSquare", "OrangeSquare", "PinkSquare", "EMailMessage", "ClosedEnvelope", "OpenEnvelope", "MobilePhone", "TelephoneWithClock", "QuestionBalloon", "PaperClip", "FrowningFace", "InstantMessagingContactPerson", "PersonWithExclamationMark", "TwoPeople", "ReminderBell", "Contact", "RoseOnAStem", "CalendarDateWithClock", "MusicalNote", "MovieClip", "QuotationMark", "Globe", "HyperlinkGlobe", "Laptop", "Plane", "Car", "Binoculars", "PresentationSlide", "Padlock", "OpenBook", "NotebookWithClock", "BlankPaperWithLines", "Research", "Pen", "DollarSign", "CoinsWithAWindowBackdrop", "ScheduledTask", "LightningBolt", "Cloud", "Heart", "Sunflower",
];

/// The bits of an opaque 32-bit time.
pub fn bits32<T: Copy>(t: T) -> u32 {
    if std::mem::size_of::<T>() != 4 {
        vp::fail("harness: time is not 32 bits");
    }
    unsafe { std::mem::transmute_copy(&t) }
}
pub fn tag_def(id: Ex, label: &str) -> Obj {
    Obj::new(id, J_TAG_DEF).s(0x1C003468, label).u32(0x14003467, 1).u16(0x10003464, 13).u16(0x10003463, 3)
}
/// The object carrying tags: 0 paragraph, 1 table, 2 image, 3 file.
fn carrier(k: u64) -> Obj {
    match k {
        0 => text0(po(0, 12), po(0, 13)),
        1 => Obj::new(po(0, 12), J_TABLE)
            .u32(0x14001D7A, 1)
            .oidv(0x24001C20, &[])
            .u32(0x14001D57, 0)
            .u32(0x14001D58, 0),
        2 => Obj::new(po(0, 12), J_IMAGE).oid(0x20001C3F, po(0, 14)),
        _ => Obj::new(po(0, 12), J_FILE).u32(0x14001D7A, 1).oid(0x20001D9B, po(0, 15)).s(0x1C001D9C, "f"),
    }
}
fn carrier_doc(o: Obj, mut more: Vec<Obj>) -> Store {
    let mut v = vec![
        o,
        style0(po(0, 13)),
        Obj::new(po(0, 14), J_PICTURE).with_blob(ex(0x60, 1)),
        Obj::new(po(0, 15), J_FILE_CONTAINER).with_blob(ex(0x60, 1)),
        tag_def(po(0, 30), "d30"),
        tag_def(po(0, 31), "d31"),
    ];
    v.append(&mut more);
    let mut s = in_element(&[po(0, 12)], v);
    s.blobs.push((ex(0x60, 1), vec![1, 2]));
    s
}
fn tags<'a>(s: &'a onenote_parser::section::Section, k: u64) -> &'a [NoteTag] {
    let c = content1(s);
    match k {
        0 => some(c.rich_text(), "rich text").note_tags(),
        1 => some(c.table(), "table").note_tags(),
        2 => some(c.image(), "image").note_tags(),
        _ => some(c.embedded_file(), "file").note_tags(),
    }
}

// Two tags; `arg` = carrier, each with or without definition and completion time.
entry!(w_tags, |k| {
    let sh = vp::choose(4);
    let same = vp::flag();
    let mut sets = vec![];
    let mut refs = vec![];
    let mut st = vec![];
    for i in 0..2u32 {
        let mut p = PS::new();
        let def = sh >> i & 1 == 1;
        let done = i == 1;
        let d = if same { 30 } else { 30 + i };
        if def {
            p.id(0x20003488);
            refs.push(po(0, d));
        }
        p.u32(0x1400346E, vp::u32());
        let c = vp::u32();
        if done {
            p.u32(0x1400346F, c);
        }
        let f = vp::u16();
        p.u16(0x10003470, f);
        sets.push(p);
        st.push((def, done, c, f, d));
    }
    let mut o = carrier(k).sets(TAGS, TAG_ELEM, &sets);
    let cids: Vec<u32> = refs.iter().map(|r| o.addref(*r)).collect();
    if same && cids.len() == 2 {
        // one and the same compact id for one and the same object
        let n = o.oids.len();
        o.oids[n - 1].cid = o.oids[n - 2].cid;
    }
    if k == 0 {
        // references after the tags
        o = o.oidv(0x24001E13, &[po(0, 40)]);
    }
    let s = must(parse(&carrier_doc(o, vec![style0(po(0, 40)).s(0x1C00345A, "s40")])), "note tags rejected");
    let t = tags(&s, k);
    vp::check(t.len() == 2, "note tag count");
    for i in 0..2 {
        let (def, done, c, f, d) = st[i];
        vp::check(t[i].definition().is_some() == def, "note tag definition presence");
        if def {
            let l = some(t[i].definition(), "definition").label();
            vp::check(l == if d == 30 { "d30" } else { "d31" }, "note tag definition");
        }
        vp::check(t[i].completed_at().map(bits32) == if done { Some(c) } else { None }, "note tag completion");
        let s = t[i].item_status();
        vp::check(s.completed() == (f & 1 == 1), "tag completed");
        vp::check(s.disabled() == (f >> 1 & 1 == 1), "tag disabled");
        vp::check(s.task_tag() == (f >> 2 & 1 == 1), "tag task");
    }
    if k == 0 {
        let f = some(content1(&s).rich_text(), "rich text").text_run_formatting();
        vp::check(f.len() == 1 && f[0].style_id() == Some("s40"), "references after the tags");
    }
    vp::cover("ok");
});

// Presence of a tag's own properties.
entry!(w_tagset, |k| {
    let mut b = B::pick(Obj::new(po(0, 99), 0), 4);
    let has = b.oid(0x20003488, false, po(0, 30));
    b.u32_req(0x1400346E);
    let done = b.u32(0x1400346F);
    let f = b.u16(0x10003470, true);
    let (x, bad) = b.done();
    let mut o = carrier(k).sets(TAGS, TAG_ELEM, &[x.ps]);
    for r in &x.oids {
        o.addref(r.to);
    }
    let r = parse(&carrier_doc(o, vec![]));
    if bad {
        return must_fail(r, "note tag without a mandatory property accepted");
    }
    let s = must(r, "note tag rejected");
    let t = tags(&s, k);
    vp::check(t.len() == 1, "note tag count");
    vp::check(t[0].definition().is_some() == has, "note tag definition presence");
    vp::check(t[0].completed_at().map(bits32) == done, "note tag completion");
    vp::check(Some(t[0].item_status().completed()) == f.map(|f| f & 1 == 1), "tag completed");
    vp::cover("ok");
});

fn with_def(d: Obj) -> Store {
    let mut p = PS::new();
    p.id(0x20003488).u32(0x1400346E, 1).u16(0x10003470, 0);
    let mut o = carrier(0).sets(TAGS, TAG_ELEM, &[p]);
    o.addref(d.id);
    carrier_doc(o, vec![d])
}
fn def1<'a>(s: &'a onenote_parser::section::Section) -> &'a NoteTagDefinition {
    let t = tags(s, 0);
    vp::check(t.len() == 1, "note tag count");
    some(t[0].definition(), "definition")
}
// A tag definition.
entry!(w_tagdef, |_| {
    let mut b = B::pick(Obj::new(po(0, 32), J_TAG_DEF), 6);
    let label = b.s(0x1C003468, true);
    let st = b.u32_req(0x14003467);
    b.small16(0x10003464, true, 13);
    b.small16(0x10003463, true, 100);
    let hi = b.cref(0x14003465);
    let col = b.cref(0x14003466);
    let (o, bad) = b.done();
    let r = parse(&with_def(o));
    if bad {
        return must_fail(r, "tag definition without a mandatory property accepted");
    }
    let s = must(r, "tag definition rejected");
    let d = def1(&s);
    let st = st.unwrap();
    vp::check(Some(d.label()) == label, "tag label");
    let p = d.status();
    let got = [
        (p.has_label(), 0),
        (p.has_font_color(), 1),
        (p.has_highlight_color(), 2),
        (p.has_icon(), 3),
        (p.due_today(), 6),
        (p.due_tomorrow(), 7),
        (p.due_this_week(), 8),
        (p.due_next_week(), 9),
        (p.due_later(), 10),
        (p.due_custom(), 11),
    ];
    for (g, b) in got {
        vp::check(g == (st >> b & 1 == 1), "tag property status bit");
    }
    vp::check(is(&d.shape(), "YellowStar"), "tag shape");
    vp::check(d.action_item_type() == ActionItemType::DueToday, "tag action type");
    vp::check(eqcolref(d.highlight_color(), hi), "tag highlight");
    vp::check(eqcolref(d.text_color(), col), "tag text colour");
    vp::cover("ok");
});

// Every shape value.
entry!(e_shape, |_| {
    let v = vp::u16();
    let o = Obj::new(po(0, 32), J_TAG_DEF).s(0x1C003468, "l").u32(0x14003467, 0).u16(0x10003464, v).u16(0x10003463, 0);
    let r = parse(&with_def(o));
    if v >= 144 {
        return must_fail(r, "undefined tag shape accepted");
    }
    let s = must(r, "tag shape rejected");
    let v = vp::conc(v as u64);
    let (n, shape) = (SHAPES[v as usize], def1(&s).shape());
    vp::check(is(&shape, n), "tag shape name");
    let box_ = n.contains("CheckBox") || n.starts_with("FollowUp") || n == "NoFollowUpDateFlag";
    vp::check(shape.is_checkable() == box_, "checkable tag shape");
    vp::cover("ok");
});

// Every action item type.
entry!(e_action, |_| {
    let v = vp::u16();
    let o = Obj::new(po(0, 32), J_TAG_DEF).s(0x1C003468, "l").u32(0x14003467, 0).u16(0x10003464, 0).u16(0x10003463, v);
    let s = must(parse(&with_def(o)), "tag action type rejected");
    let w = match v {
        0..=99 => ActionItemType::Numeric(v),
        100 => ActionItemType::DueToday,
        101 => ActionItemType::DueTomorrow,
        102 => ActionItemType::DueThisWeek,
        103 => ActionItemType::DueNextWeek,
        104 => ActionItemType::NoDueDate,
        105 => ActionItemType::CustomDueDate,
        _ => ActionItemType::Unknown,
    };
    vp::check(def1(&s).action_item_type() == w, "tag action type");
    vp::cover("ok");
});

const RUNS: u32 = 0x40003499;
const RUN_ELEM: u32 = 0x44000811;

/// A paragraph with one run per entry: (style object, run data).
pub fn runs(r: Vec<(Obj, PS)>, data: &[Ex], more: Vec<Obj>) -> Store {
    runs_of(r, usize::MAX, data, more)
}
/// With run data for the first `n` runs only.
pub fn runs_of(r: Vec<(Obj, PS)>, n: usize, data: &[Ex], mut more: Vec<Obj>) -> Store {
    let ids: Vec<Ex> = r.iter().map(|x| x.0.id).collect();
    let sets: Vec<PS> = r.iter().map(|x| x.1.clone()).take(n).collect();
    let mut o = text0(po(0, 12), po(0, 13)).oidv(0x24001E13, &ids).s(0x1C001C22, "text");
    if !data.is_empty() {
        o = o.oidv(0x24003458, data);
    }
    o = o.sets(RUNS, RUN_ELEM, &sets);
    let mut v = vec![o, style0(po(0, 13))];
    v.extend(r.into_iter().map(|x| x.0));
    v.append(&mut more);
    in_element(&[po(0, 12)], v)
}

// One inline maths object, each property present or not.
entry!(w_math, |_| {
    let mut b = B::pick(Obj::new(po(0, 99), 0), 7);
    let t = b.u32(0x1400344F).map(|_| {
        let n = b.o.ps.vals.0.len();
        b.o.ps.vals.0[n - 4..].copy_from_slice(&25u32.to_le_bytes());
    });
    let cnt = b.u32(0x14003450);
    let col = b.u8(0x0C003451, false);
    let al = b.u8(0x0C003452, false);
    let mut ch = [None; 3];
    for i in 0..3 {
        ch[i] = b.char16(0x10003453 + i as u32);
    }
    let (x, bad) = b.done();
    let st = runs(
        vec![(style0(po(0, 20)).b(0x08003401, false), PS::new()), (style0(po(0, 21)).b(0x08003401, true), x.ps)],
        &[],
        vec![],
    );
    let r = parse(&st);
    if bad {
        return must_fail(r, "maths object with a mistyped property accepted");
    }
    let s = must(r, "maths object rejected");
    let c = some(content1(&s).rich_text(), "rich text");
    vp::check(c.math_inline_objects().len() == 1, "maths object count");
    vp::check(c.embedded_objects().is_empty() && c.text() == "text", "text with maths");
    let m = &c.math_inline_objects()[0];
    vp::check(m.object_type() == if t.is_some() { MathObjectType::Radical } else { MathObjectType::SimpleText }, "maths type");
    vp::check(m.arg_count() == cnt.unwrap_or(0), "maths argument count");
    vp::check(eqo(m.column(), col), "maths column");
    vp::check(eqo(m.align(), al), "maths alignment");
    let g = [m.char(), m.char1(), m.char2()];
    for i in 0..3 {
        vp::check(eqo(g[i].map(|c| c as u32), ch[i].map(|c| c as u32)), "maths character");
    }
    vp::cover("ok");
});

// Every maths object type, every operator character.
entry!(e_math, |k| {
    use MathObjectType::*;
    let v = vp::u32();
    let c = vp::u16();
    let mut p = PS::new();
    if k == 0 {
        p.u32(0x1400344F, v);
    } else {
        p.u16(0x10003452 + k as u32, c);
    }
    let r = parse(&runs(vec![(style0(po(0, 20)).b(0x08003401, true), p)], &[], vec![]));
    if k == 0 {
        let names = [
            Accent, Box, BoxedFormula, Brackets, BracketsWithSeps, EquationArray, Fraction, FunctionApply,
            LeftSubSup, LowerLimit, Matrix, Nary, OpChar, Overbar, Phantom, Radical, SlashedFraction, Stack,
            StretchStack, Subscript, SubSup, Superscript, Underbar, UpperLimit,
        ];
        let ok = v == 0 || v == 0x9000_0000 || (v >= 10 && v <= 33);
        if !ok {
            return must_fail(r, "undefined maths type accepted");
        }
        let s = must(r, "maths type rejected");
        let v = vp::conc(v as u64);
        let w = match v {
            0 => SimpleText,
            10..=33 => names[v as usize - 10],
            _ => PlainText,
        };
        let c = some(content1(&s).rich_text(), "rich text");
        vp::check(c.math_inline_objects().len() == 1 && c.math_inline_objects()[0].object_type() == w, "maths type");
    } else {
        if c >> 11 == 0x1b {
            return must_fail(r, "lone surrogate accepted");
        }
        let s = must(r, "maths character rejected");
        let t = some(content1(&s).rich_text(), "rich text");
        vp::check(t.math_inline_objects().len() == 1, "maths object count");
        let m = &t.math_inline_objects()[0];
        let g = [m.char(), m.char1(), m.char2()];
        for i in 0..3 {
            let w = if i as u64 + 1 == k { Some(c as u32) } else { None };
            vp::check(eqo(g[i].map(|c| c as u32), w), "maths character");
        }
    }
    vp::cover("ok");
});

// Several runs: each maths object belongs to its own run; `n` runs, any subset of them maths.
entry!(w_mathruns, |n| {
    let mut r = vec![];
    let mut w = vec![];
    for i in 0..n as u32 {
        let f = vp::flag();
        let cnt = vp::u32();
        let mut p = PS::new();
        p.u32(0x14003450, cnt);
        if f {
            w.push(cnt);
        }
        r.push((style0(po(0, 20 + i)).b(0x08003401, f), p));
    }
    let s = must(parse(&runs(r, &[], vec![])), "maths runs rejected");
    let t = some(content1(&s).rich_text(), "rich text");
    vp::check(t.math_inline_objects().len() == w.len(), "maths object count");
    for i in 0..w.len() {
        vp::check(t.math_inline_objects()[i].arg_count() == w[i], "maths object order");
    }
    vp::check(t.text_run_formatting().len() == n as usize, "run count");
    vp::cover("ok");
});
