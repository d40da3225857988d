//! Properties the library does not know: skipped, whatever they hold and wherever they stand.
use crate::bld::*;
use crate::enc::*;
use crate::refs::unknown;
use crate::vp;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

/// Identifiers (26 bits) of the properties of [MS-ONE] that this library names.
const KNOWN: [u32; 182] = [
    0x811, 0x1C00, 0x1C01, 0x1C02, 0x1C03, 0x1C04, 0x1C05, 0x1C06, 0x1C07, 0x1C08,
    0x1C09, 0x1C0A, 0x1C0B, 0x1C0C, 0x1C0D, 0x1C12, 0x1C13, 0x1C14, 0x1C15, 0x1C1A,
    0x1C1B, 0x1C1C, 0x1C1F, 0x1C20, 0x1C22, 0x1C26, 0x1C27, 0x1C28, 0x1C30, 0x1C34,
    0x1C3B, 0x1C3E, 0x1C3F, 0x1C46, 0x1C47, 0x1C4C, 0x1C4D, 0x1C4E, 0x1C4F, 0x1C52,
    0x1C65, 0x1C84, 0x1C87, 0x1C88, 0x1C8B, 0x1C8E, 0x1C91, 0x1C92, 0x1CB2, 0x1CB4,
    0x1CB5, 0x1CB7, 0x1CB9, 0x1CBD, 0x1CBE, 0x1CCB, 0x1CDB, 0x1CDC, 0x1CDE, 0x1CEC,
    0x1CF1, 0x1CF3, 0x1CF6, 0x1CF9, 0x1CFE, 0x1CFF, 0x1D01, 0x1D09, 0x1D0C, 0x1D0E,
    0x1D0F, 0x1D10, 0x1D13, 0x1D24, 0x1D3C, 0x1D57, 0x1D58, 0x1D5E, 0x1D5F, 0x1D63,
    0x1D66, 0x1D6B, 0x1D75, 0x1D77, 0x1D78, 0x1D79, 0x1D7A, 0x1D7C, 0x1D7D, 0x1D82,
    0x1D93, 0x1D94, 0x1D95, 0x1D96, 0x1D99, 0x1D9B, 0x1D9C, 0x1D9D, 0x1D9E, 0x1DD7,
    0x1DDB, 0x1DE9, 0x1DFF, 0x1E12, 0x1E13, 0x1E14, 0x1E15, 0x1E16, 0x1E19, 0x1E1E,
    0x1E20, 0x1E22, 0x1E26, 0x1E58, 0x3401, 0x3409, 0x340A, 0x340B, 0x340C, 0x340D,
    0x340E, 0x340F, 0x3410, 0x3411, 0x3412, 0x3413, 0x3414, 0x3415, 0x3416, 0x3418,
    0x341C, 0x3424, 0x342C, 0x342E, 0x342F, 0x3430, 0x3442, 0x344F, 0x3450, 0x3451,
    0x3452, 0x3453, 0x3454, 0x3455, 0x3457, 0x3458, 0x345A, 0x3462, 0x3463, 0x3464,
    0x3465, 0x3466, 0x3467, 0x3468, 0x346B, 0x346E, 0x346F, 0x3470, 0x3473, 0x3476,
    0x3477, 0x347B, 0x3480, 0x3488, 0x3489, 0x348A, 0x348B, 0x3498, 0x3499, 0x349B,
    0x349E, 0x349F, 0x34A0, 0x34A1, 0x34A2, 0x34A3, 0x34C8, 0x34CB, 0x34CD, 0x34CE,
    0x35F2, 0x35F3,
];

static KIND: AtomicU8 = AtomicU8::new(0);
static MODE: AtomicU8 = AtomicU8::new(0);
/// The kind of unknown property `B::pick` adds (0: none).
pub fn kind() -> u8 {
    KIND.load(Relaxed)
}
pub fn mode() -> u64 {
    MODE.load(Relaxed) as u64
}
fn set_kind(k: u8) {
    KIND.store(k, Relaxed);
}

/// An identifier that no known property has.
fn free_id() -> u32 {
    let id = vp::u32() & 0x03ff_ffff;
    let mut ok = true;
    for k in KNOWN {
        ok &= id != k;
    }
    vp::assume(ok);
    id
}
pub const KINDS: u64 = 19;
/// Add an unknown property of kind `k`. -> the file has to be rejected
pub fn add(o: &mut Obj, k: u64) -> bool {
    match k {
        1 => {
            o.ps.id(free_id() | 1 << 26);
        }
        2 => {
            // the value is bit 31
            let b = vp::bool() as u32;
            o.ps.id(free_id() | 2 << 26 | b << 31);
        }
        3 => {
            o.ps.u8(free_id() | 3 << 26, vp::u8());
        }
        4 => {
            o.ps.u16(free_id() | 4 << 26, vp::u16());
        }
        5 => {
            o.ps.u32(free_id() | 5 << 26, vp::u32());
        }
        6 => {
            o.ps.u64(free_id() | 6 << 26, vp::u64());
        }
        7 => {
            let n = [0usize, 1, 4][vp::choose(3) as usize];
            let d = vp::vec(n);
            o.ps.v(free_id() | 7 << 26, &d);
        }
        8..=16 => {
            let p = std::mem::replace(o, Obj::new(NIL, 0));
            *o = unknown(p, k - 7);
        }
        17 => {
            // one of every scalar in a nested set, and an array of two such sets
            let mut a = PS::new();
            a.u8(0x0C003701, vp::u8()).u16(0x10003702, vp::u16()).u32(0x14003703, vp::u32()).u64(0x18003704, vp::u64());
            a.b(0x08003705, vp::bool()).id(0x04003706).v(0x1C003707, &vp::bytes::<3>());
            o.ps.id(0x4400377A);
            let b = a.bytes();
            o.ps.vals.raw(&b);
            o.ps.u32(0x40003778, 2);
            o.ps.vals.u32(0x44003779).raw(&b).raw(&b);
        }
        18 => {
            // an empty array of sets (the id of its sets is there all the same), an empty set
            o.ps.u32(0x40003778, 0);
            o.ps.vals.u32(0x44003779);
            o.ps.id(0x4400377A);
            o.ps.vals.u16(0);
        }
        _ => {
            // a value type the format does not define
            let t = vp::u8() & 31;
            vp::assume(t == 0 || t == 0xE || t == 0xF || t > 0x11);
            let b = vp::bool() as u32;
            o.ps.id(0x3777 | (t as u32) << 26 | b << 31);
            return true;
        }
    }
    false
}

const OBJS: [extern "C" fn(u64); 26] = [
    crate::wire::w_page, crate::wire::w_pagemeta, crate::wire::w_title, crate::wire::w_section, crate::wire::w_sectionnode,
    crate::wire::w_series, crate::wire::w_outline, crate::wire::w_group, crate::wire::w_element, crate::wire::w_text,
    crate::wire::w_style, crate::wire::w_table, crate::wire::w_cell, crate::wire::w_row, crate::wire::w_image,
    crate::wire::w_iframe, crate::wire::w_file, crate::wire::w_list, crate::tags::w_tagdef, crate::ink::w_stroke,
    crate::ink::w_strokeprops, crate::ink::w_ink, crate::ink::w_inkdata, crate::tags::w_tagset, crate::tags::w_math,
    crate::ink::w_inkrun,
];
/// `a`: kind * 100 + object (+ 10000: only mandatory properties besides it).
#[unsafe(no_mangle)]
pub extern "C" fn u_skip(a: u64) {
    set_kind((a / 100 % 100) as u8);
    MODE.store((a / 10000) as u8, Relaxed);
    OBJS[(a % 100) as usize](if a % 100 == 25 { 3 } else { 0 });
}
