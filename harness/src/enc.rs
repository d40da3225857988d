//! An independent encoder for FSSHTTPB-packaged OneNote revision stores, written from
//! [MS-FSSHTTPB] 2.2.1, [MS-ONESTORE] 2.6-2.8 and [MS-ONE] 2.1/2.2. Values may be symbolic.
#![allow(dead_code)]
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

/// How the encoder writes what the format lets it write in several ways (see `set_forms`).
static COMPACT: AtomicU8 = AtomicU8::new(0);
static EXF: AtomicU8 = AtomicU8::new(0);
static LEN: AtomicU8 = AtomicU8::new(0);
static SERIAL: AtomicU8 = AtomicU8::new(0);
static NILS: AtomicU8 = AtomicU8::new(0);
/// `compact`: least width of compact integers (0: shortest); `ex`: width of extended GUIDs (0: shortest);
/// `len`: write true lengths into stream object headers; `serial`: give data elements serial numbers;
/// `nil`: write null identifiers in full.
pub fn set_forms(compact: u8, ex: u8, len: bool, serial: bool, nil: bool) {
    COMPACT.store(compact, Relaxed);
    EXF.store(ex, Relaxed);
    LEN.store(len as u8, Relaxed);
    SERIAL.store(serial as u8, Relaxed);
    NILS.store(nil as u8, Relaxed);
}

/// Raw (on-disk) GUID bytes.
pub type G = [u8; 16];

/// Parse the text form of a GUID into its on-disk byte order.
pub fn g(s: &str) -> G {
    let mut n = [0u8; 16];
    let mut i = 0;
    for c in s.bytes() {
        let v = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => continue,
        };
        n[i / 2] = n[i / 2] << 4 | v;
        i += 1;
    }
    [
        n[3], n[2], n[1], n[0], n[5], n[4], n[7], n[6], n[8], n[9], n[10], n[11], n[12], n[13],
        n[14], n[15],
    ]
}

/// An extended GUID. `form` selects the encoding: 0 = shortest that fits (assumes concrete `n`),
/// otherwise 5/10/17/32 bits.
#[derive(Clone, Copy)]
pub struct Ex {
    pub g: G,
    pub n: u32,
    pub form: u8,
}
pub const NIL: Ex = Ex { g: [0; 16], n: 0, form: 0 };
/// A concrete identifier: GUID made of `seed`, value `n`.
pub fn ex(seed: u8, n: u32) -> Ex {
    Ex { g: [seed; 16], n, form: 0 }
}
pub fn exg(s: &str, n: u32) -> Ex {
    Ex { g: g(s), n, form: 0 }
}
#[derive(Clone, Copy)]
pub struct Cell(pub Ex, pub Ex);

#[derive(Clone, Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(Vec::with_capacity(64))
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.0.push(v);
        self
    }
    pub fn raw(&mut self, v: &[u8]) -> &mut W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut W {
        self.raw(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        self.raw(&v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        self.raw(&v.to_le_bytes())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    /// [MS-FSSHTTPB] 2.2.1.1: compact unsigned 64-bit integer of `k` bytes (`k` = 0: zero form,
    /// 1..=7, 9). The value must fit 7*k bits.
    pub fn compact_k(&mut self, v: u64, k: u8) -> &mut W {
        match k {
            0 => self.u8(0),
            9 => self.u8(0x80).u64(v),
            k => {
                let e = ((v << 1 | 1) << (k - 1)).to_le_bytes();
                self.raw(&e[..k as usize])
            }
        }
    }
    /// Shortest form of a concrete value.
    pub fn compact(&mut self, v: u64) -> &mut W {
        let c = COMPACT.load(Relaxed);
        if c == 9 {
            return self.compact_k(v, 9);
        }
        if v == 0 && c == 0 {
            return self.u8(0);
        }
        let mut k = if c == 0 { 1u8 } else { c };
        while k < 8 {
            if v >> (7 * k as u32) == 0 {
                return self.compact_k(v, k);
            }
            k += 1;
        }
        self.compact_k(v, 9)
    }
    /// [MS-FSSHTTPB] 2.2.1.7
    pub fn ex(&mut self, e: &Ex) -> &mut W {
        let form = if e.form != 0 {
            e.form
        } else if e.n == 0 && e.g == [0; 16] && NILS.load(Relaxed) == 0 {
            return self.u8(0);
        } else if EXF.load(Relaxed) == 32
            || EXF.load(Relaxed) == 17 && e.n < 1 << 17
            || EXF.load(Relaxed) == 10 && e.n < 1 << 10
        {
            EXF.load(Relaxed)
        } else if e.n < 32 {
            5
        } else if e.n < 1024 {
            10
        } else if e.n < 1 << 17 {
            17
        } else {
            32
        };
        match form {
            5 => self.u8(4 | (e.n as u8) << 3),
            10 => self.u16(32 | (e.n as u16) << 6),
            17 => {
                let v = 64u32 | e.n << 7;
                self.raw(&v.to_le_bytes()[..3])
            }
            _ => self.u8(128).u32(e.n),
        };
        self.raw(&e.g)
    }
    pub fn cell(&mut self, c: &Cell) -> &mut W {
        self.ex(&c.0).ex(&c.1)
    }
    pub fn exs(&mut self, v: &[Ex]) -> &mut W {
        self.compact(v.len() as u64);
        for e in v {
            self.ex(e);
        }
        self
    }
    pub fn cells(&mut self, v: &[Cell]) -> &mut W {
        self.compact(v.len() as u64);
        for e in v {
            self.cell(e);
        }
        self
    }
    pub fn serial_nil(&mut self) -> &mut W {
        self.u8(0)
    }
    /// [MS-FSSHTTPB] 2.2.1.9.2
    pub fn serial(&mut self, guid: &G, n: u64) -> &mut W {
        self.u8(128).raw(guid).u64(n)
    }
    /// 16-bit stream object header start (type must be < 0x40).
    pub fn h16(&mut self, ty: u16, compound: bool, len: u16) -> &mut W {
        self.u16(ty << 3 | (compound as u16) << 2 | len << 9)
    }
    /// 32-bit stream object header start.
    pub fn h32(&mut self, ty: u32, compound: bool, len: u32) -> &mut W {
        self.u32(2 | ty << 3 | (compound as u32) << 2 | len << 17)
    }
    pub fn end8(&mut self, ty: u8) -> &mut W {
        self.u8(1 | ty << 2)
    }
    pub fn end16(&mut self, ty: u16) -> &mut W {
        self.u16(3 | ty << 2)
    }
}

/// Stream object types ([MS-FSSHTTPB] 2.2.1.5).
pub mod ty {
    pub const DATA_ELEMENT: u8 = 0x01;
    pub const BLOB: u32 = 0x02;
    pub const GROUP_DATA_EXCLUDED: u32 = 0x03;
    pub const GROUP_DECL_BLOB: u32 = 0x05;
    pub const SM_ROOT: u16 = 0x07;
    pub const RM_ROOT: u16 = 0x0A;
    pub const CELL_MANIFEST: u16 = 0x0B;
    pub const STORAGE_MANIFEST: u16 = 0x0C;
    pub const SI_REVISION: u16 = 0x0D;
    pub const SI_CELL: u16 = 0x0E;
    pub const SI_MANIFEST: u16 = 0x11;
    pub const PACKAGE: u8 = 0x15;
    pub const GROUP_DATA_OBJECT: u32 = 0x16;
    pub const GROUP_DECL_OBJECT: u32 = 0x18;
    pub const RM_GROUP: u16 = 0x19;
    pub const REVISION_MANIFEST: u16 = 0x1A;
    pub const GROUP_DATA_BLOB: u32 = 0x1C;
    pub const GROUP_DECL: u32 = 0x1D;
    pub const GROUP_DATA: u32 = 0x1E;
    pub const FRAGMENT: u32 = 0x6A;
    pub const METADATA: u32 = 0x78;
    pub const METADATA_BLOCK: u32 = 0x79;
    pub const ONENOTE: u32 = 0x7A;
}

/// A reference held by an object: the compact id that names it and the target.
#[derive(Clone, Copy)]
pub struct Ref {
    pub cid: u32,
    pub to: Ex,
}
#[derive(Clone, Copy)]
pub struct CellRef {
    pub cid: u32,
    pub to: Cell,
}

/// One set of properties ([MS-ONESTORE] 2.6.7).
#[derive(Clone, Default)]
pub struct PS {
    pub ids: W,
    pub vals: W,
    pub n: u16,
}
impl PS {
    pub fn new() -> PS {
        PS::default()
    }
    pub fn id(&mut self, id: u32) -> &mut PS {
        self.ids.u32(id);
        self.n += 1;
        self
    }
    /// Boolean: the value lives in bit 31 of the id.
    pub fn b(&mut self, id: u32, v: bool) -> &mut PS {
        self.id((id & 0x7fff_ffff) | (v as u32) << 31)
    }
    pub fn u8(&mut self, id: u32, v: u8) -> &mut PS {
        self.id(id);
        self.vals.u8(v);
        self
    }
    pub fn u16(&mut self, id: u32, v: u16) -> &mut PS {
        self.id(id);
        self.vals.u16(v);
        self
    }
    pub fn u32(&mut self, id: u32, v: u32) -> &mut PS {
        self.id(id);
        self.vals.u32(v);
        self
    }
    pub fn f32(&mut self, id: u32, v: f32) -> &mut PS {
        self.u32(id, v.to_bits())
    }
    pub fn u64(&mut self, id: u32, v: u64) -> &mut PS {
        self.id(id);
        self.vals.u64(v);
        self
    }
    pub fn v(&mut self, id: u32, v: &[u8]) -> &mut PS {
        self.id(id);
        self.vals.u32(v.len() as u32).raw(v);
        self
    }
    /// A UTF-16 string property from ASCII text with symbolic characters, NUL-terminated.
    pub fn ascii(&mut self, id: u32, v: &str) -> &mut PS {
        let mut b = vec![];
        for c in v.bytes() {
            b.extend_from_slice(&[c, 0]);
        }
        b.extend_from_slice(&[0, 0]);
        self.v(id, &b)
    }
    /// A UTF-16 string property from concrete ASCII text, NUL-terminated.
    pub fn s(&mut self, id: u32, v: &str) -> &mut PS {
        let mut b = vec![];
        for c in v.encode_utf16() {
            b.extend_from_slice(&c.to_le_bytes());
        }
        b.extend_from_slice(&[0, 0]);
        self.v(id, &b)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = W::new();
        w.u16(self.n).raw(&self.ids.0).raw(&self.vals.0);
        w.0
    }
}

/// An object of an object space.
#[derive(Clone)]
pub struct Obj {
    pub id: Ex,
    pub jcid: u32,
    pub ps: PS,
    pub oids: Vec<Ref>,
    pub osids: Vec<CellRef>,
    pub ctxs: Vec<CellRef>,
    pub blob: Option<Ex>,
    /// partitions (bits) without declaration, without data
    pub undeclared: u8,
    pub undelivered: u8,
    /// objects and cells that the blob's / the kind's partition lists as references
    pub brefs: (Vec<Ex>, Vec<Cell>),
    pub mrefs: (Vec<Ex>, Vec<Cell>),
    pub cid0: u32,
    /// distance of consecutive compact ids (0: all references share one)
    pub cstep: u32,
    /// order of the partitions 4 (kind), 1 (properties), 2 (blob)
    pub porder: u8,
    /// header flag: object space id stream absent
    pub no_osid: bool,
    /// replace the encoded property stream
    pub raw: Option<Vec<u8>>,
}
impl Obj {
    pub fn new(id: Ex, jcid: u32) -> Obj {
        Obj {
            id,
            jcid,
            ps: PS::new(),
            oids: vec![],
            osids: vec![],
            ctxs: vec![],
            blob: None,
            undeclared: 0,
            undelivered: 0,
            brefs: (vec![], vec![]),
            mrefs: (vec![], vec![]),
            cid0: 0x100,
            cstep: 0x101,
            porder: 0,
            no_osid: false,
            raw: None,
        }
    }
    pub fn b(mut self, id: u32, v: bool) -> Obj {
        self.ps.b(id, v);
        self
    }
    pub fn u8(mut self, id: u32, v: u8) -> Obj {
        self.ps.u8(id, v);
        self
    }
    pub fn u16(mut self, id: u32, v: u16) -> Obj {
        self.ps.u16(id, v);
        self
    }
    pub fn u32(mut self, id: u32, v: u32) -> Obj {
        self.ps.u32(id, v);
        self
    }
    pub fn f32(mut self, id: u32, v: f32) -> Obj {
        self.ps.f32(id, v);
        self
    }
    pub fn u64(mut self, id: u32, v: u64) -> Obj {
        self.ps.u64(id, v);
        self
    }
    pub fn v(mut self, id: u32, v: &[u8]) -> Obj {
        self.ps.v(id, v);
        self
    }
    pub fn s(mut self, id: u32, v: &str) -> Obj {
        self.ps.s(id, v);
        self
    }
    pub fn addref(&mut self, to: Ex) -> u32 {
        let cid = self.cid0;
        self.cid0 += self.cstep;
        self.oids.push(Ref { cid, to });
        cid
    }
    pub fn addcell(&mut self, to: Cell) -> u32 {
        let cid = self.cid0;
        self.cid0 += self.cstep;
        self.osids.push(CellRef { cid, to });
        cid
    }
    /// Single object reference.
    pub fn oid(mut self, id: u32, to: Ex) -> Obj {
        self.ps.id(id);
        self.addref(to);
        self
    }
    /// Array of object references.
    pub fn oidv(mut self, id: u32, to: &[Ex]) -> Obj {
        self.ps.u32(id, to.len() as u32);
        for t in to {
            self.addref(*t);
        }
        self
    }
    pub fn osid(mut self, id: u32, to: Cell) -> Obj {
        self.ps.id(id);
        self.addcell(to);
        self
    }
    pub fn osidv(mut self, id: u32, to: &[Cell]) -> Obj {
        self.ps.u32(id, to.len() as u32);
        for t in to {
            self.addcell(*t);
        }
        self
    }
    /// Array of nested property sets (0x10): `elem` is the element property id.
    pub fn sets(mut self, id: u32, elem: u32, sets: &[PS]) -> Obj {
        self.ps.u32(id, sets.len() as u32);
        self.ps.vals.u32(elem);
        for s in sets {
            let b = s.bytes();
            self.ps.vals.raw(&b);
        }
        self
    }
    pub fn with_blob(mut self, b: Ex) -> Obj {
        self.blob = Some(b);
        self
    }
    fn parts(&self) -> [u64; 3] {
        [[4, 1, 2], [1, 4, 2], [2, 1, 4], [4, 2, 1], [1, 2, 4], [2, 4, 1]][self.porder as usize]
    }
    /// [MS-ONESTORE] 2.6.1: the property stream.
    pub fn stream(&self) -> Vec<u8> {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let mut w = W::new();
        let no = self.no_osid;
        let ext = !self.ctxs.is_empty();
        w.u32(self.oids.len() as u32 | (ext as u32) << 30 | (no as u32) << 31);
        for r in &self.oids {
            w.u32(r.cid);
        }
        if !no {
            w.u32(self.osids.len() as u32 | (ext as u32) << 30);
            for r in &self.osids {
                w.u32(r.cid);
            }
            if ext {
                w.u32(self.ctxs.len() as u32);
                for r in &self.ctxs {
                    w.u32(r.cid);
                }
            }
        }
        let b = self.ps.bytes();
        w.raw(&b);
        w.0
    }
}

#[derive(Clone)]
pub struct Group {
    pub id: Ex,
    pub objs: Vec<Obj>,
    /// None: no metadata block, Some(f): one entry with frequency `f` per declaration
    pub meta: Option<u64>,
}

#[derive(Clone)]
pub struct Rev {
    pub id: Ex,
    pub rev_id: Ex,
    pub base: Ex,
    pub roots: Vec<(u32, Ex)>,
    pub groups: Vec<Ex>,
}
pub const ROLE: &str = "4A3717F8-1C14-49E7-9526-81D942DE1741";

#[derive(Clone)]
pub struct CellMap {
    pub cell: Cell,
    pub mapping: Ex,
    pub serial: Option<(G, u64)>,
}
#[derive(Clone)]
pub struct RevMap {
    pub rev: Ex,
    pub manifest: Ex,
    pub serial: Option<(G, u64)>,
}

/// A complete store.
#[derive(Clone)]
pub struct Store {
    pub schema: G,
    pub file_type: G,
    pub file_format: G,
    pub legacy_version: G,
    pub index_id: Ex,
    pub roots: Vec<(Ex, Cell)>,
    pub cells: Vec<CellMap>,
    pub revmaps: Vec<RevMap>,
    pub manifests: Vec<(Ex, Ex)>,
    pub revs: Vec<Rev>,
    pub groups: Vec<Group>,
    pub blobs: Vec<(Ex, Vec<u8>)>,
    /// use 32-bit object headers inside object groups
    pub wide: bool,
    /// extra, already encoded data elements placed before everything else
    pub extra: Vec<u8>,
}

pub const SECTION_SCHEMA: &str = "1F937CB4-B26F-445F-B9F8-17E20160E461";
pub const TOC_SCHEMA: &str = "E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F";
pub const FMT_PACKAGE: &str = "638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7";
pub const FMT_REVISION: &str = "109ADD3F-911B-49F5-A5D0-1791EDC8AED8";
pub const HEADER_ROOT: &str = "1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4";
pub const DATA_ROOT: &str = "84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073";
pub const ONE_TYPE: &str = "7B5C52E4-D88C-4DA7-AEB1-5378D02996D3";

impl Store {
    pub fn new(schema: &str) -> Store {
        Store {
            schema: g(schema),
            file_type: g(ONE_TYPE),
            file_format: g(FMT_PACKAGE),
            legacy_version: [0; 16],
            index_id: ex(0x51, 1),
            roots: vec![],
            cells: vec![],
            revmaps: vec![],
            manifests: vec![],
            revs: vec![],
            groups: vec![],
            blobs: vec![],
            wide: false,
            extra: vec![],
        }
    }
    /// A store with a valid header cell (ids use seed 0x10).
    pub fn with_header(schema: &str) -> Store {
        let mut s = Store::new(schema);
        let cell = Cell(ex(0x10, 1), ex(0x10, 2));
        s.roots.push((exg(HEADER_ROOT, 1), cell));
        let h = Obj::new(ex(0x10, 9), 0)
            .v(0x1C001D94, &[0x11; 16])
            .v(0x1C001D95, &[0x12; 16])
            .u32(0x14001D99, 1)
            .u32(0x14001D93, 0x1234_5678);
        s.add_space(cell, 0x10, &[], vec![h]);
        s
    }
    /// Add an object space holding one revision with one group; identifiers derive from `seed`.
    pub fn add_space(&mut self, cell: Cell, seed: u8, roots: &[(u32, Ex)], objs: Vec<Obj>) {
        let mapping = ex(seed, 0x10);
        let rev = ex(seed, 0x11);
        let manifest = ex(seed, 0x12);
        let group = ex(seed, 0x13);
        self.cells.push(CellMap { cell, mapping, serial: None });
        self.manifests.push((mapping, rev));
        self.revmaps.push(RevMap { rev, manifest, serial: None });
        self.revs.push(Rev {
            id: manifest,
            rev_id: rev,
            base: NIL,
            roots: roots.to_vec(),
            groups: vec![group],
        });
        self.groups.push(Group { id: group, objs, meta: None });
    }
    /// Put the length of what follows it into the stream object header at `at`.
    fn fix(w: &mut W, at: usize) {
        if LEN.load(Relaxed) == 0 {
            return;
        }
        let wide = w.0[at] & 3 == 2;
        let h = if wide { 4 } else { 2 };
        let n = w.0.len() - at - h;
        if !wide && n < 128 {
            w.0[at + 1] |= (n as u8) << 1;
            return;
        }
        let old = w.0[at] as u32 | (w.0[at + 1] as u32) << 8;
        let ty = old >> 3 & if wide { 0x1fff } else { 0x3f };
        let mut t = W::new();
        if n < 0x7fff {
            t.h32(ty, old >> 2 & 1 == 1, n as u32);
        } else {
            t.h32(ty, old >> 2 & 1 == 1, 0x7fff).compact(n as u64);
        }
        w.0.splice(at..at + h, t.0);
    }
    fn item(&self, w: &mut W, t: u16, f: impl FnOnce(&mut W)) {
        let at = w.len();
        w.h16(t, false, 0);
        f(w);
        Self::fix(w, at);
    }
    fn item_any(&self, w: &mut W, t: u32, f: impl FnOnce(&mut W)) {
        let at = w.len();
        self.hd(w, t);
        f(w);
        Self::fix(w, at);
    }
    pub fn elem(&self, w: &mut W, id: &Ex, kind: u64) {
        let at = w.len();
        w.h16(ty::DATA_ELEMENT as u16, true, 0).ex(id);
        if SERIAL.load(Relaxed) == 0 {
            w.serial_nil();
        } else {
            w.serial(&[0x5E; 16], kind);
        }
        w.compact(kind);
        Self::fix(w, at);
    }
    fn ser(w: &mut W, s: &Option<(G, u64)>) {
        match s {
            None => w.serial_nil(),
            Some((g, n)) => w.serial(g, *n),
        };
    }
    fn hd(&self, w: &mut W, t: u32) {
        if self.wide || t >= 0x40 {
            w.h32(t, false, 0);
        } else {
            w.h16(t as u16, false, 0);
        }
    }
    pub fn storage_index(&self, w: &mut W) {
        self.elem(w, &self.index_id, 1);
        self.item(w, ty::SI_MANIFEST, |w| {
            w.ex(&ex(0x52, 1)).serial_nil();
        });
        for c in &self.cells {
            self.item(w, ty::SI_CELL, |w| {
                w.cell(&c.cell).ex(&c.mapping);
                Self::ser(w, &c.serial);
            });
        }
        for r in &self.revmaps {
            self.item(w, ty::SI_REVISION, |w| {
                w.ex(&r.rev).ex(&r.manifest);
                Self::ser(w, &r.serial);
            });
        }
        w.end8(ty::DATA_ELEMENT);
    }
    pub fn storage_manifest(&self, w: &mut W) {
        self.elem(w, &ex(0x52, 1), 2);
        self.item(w, ty::STORAGE_MANIFEST, |w| {
            w.raw(&self.schema);
        });
        for (r, c) in &self.roots {
            self.item(w, ty::SM_ROOT, |w| {
                w.ex(r).cell(c);
            });
        }
        w.end8(ty::DATA_ELEMENT);
    }
    pub fn rev(&self, w: &mut W, r: &Rev) {
        self.elem(w, &r.id, 4);
        self.item(w, ty::REVISION_MANIFEST, |w| {
            w.ex(&r.rev_id).ex(&r.base);
        });
        for (role, obj) in &r.roots {
            self.item(w, ty::RM_ROOT, |w| {
                w.ex(&exg(ROLE, *role)).ex(obj);
            });
        }
        for gr in &r.groups {
            self.item(w, ty::RM_GROUP, |w| {
                w.ex(gr);
            });
        }
        w.end8(ty::DATA_ELEMENT);
    }
    fn refs(w: &mut W, r: &(Vec<Ex>, Vec<Cell>)) {
        w.compact(r.0.len() as u64);
        for e in &r.0 {
            w.ex(e);
        }
        w.compact(r.1.len() as u64);
        for c in &r.1 {
            w.cell(c);
        }
    }
    pub fn group(&self, w: &mut W, gr: &Group) {
        self.elem(w, &gr.id, 5);
        self.hd(w, ty::GROUP_DECL);
        let mut n = 0u32;
        for o in &gr.objs {
            for part in o.parts() {
                if o.undeclared >> part & 1 == 1 {
                    continue;
                }
                match (part, &o.blob) {
                    (2, Some(b)) => self.item_any(w, ty::GROUP_DECL_BLOB, |w| {
                        w.ex(&o.id).ex(b).compact(2).compact(0).compact(0);
                    }),
                    (2, None) => continue,
                    _ => self.item_any(w, ty::GROUP_DECL_OBJECT, |w| {
                        w.ex(&o.id).compact(part).compact(0).compact(0).compact(0);
                    }),
                }
                n += 1;
            }
        }
        w.end8(ty::GROUP_DECL as u8);
        if let Some(f) = gr.meta {
            w.h32(ty::METADATA_BLOCK, true, 0);
            for _ in 0..n {
                let at = w.len();
                w.h32(ty::METADATA, false, 0).compact(f);
                Self::fix(w, at);
            }
            w.end16(ty::METADATA_BLOCK as u16);
        }
        self.hd(w, ty::GROUP_DATA);
        for o in &gr.objs {
            for part in o.parts() {
                if o.undelivered >> part & 1 == 1 {
                    continue;
                }
                match (part, &o.blob) {
                    // metadata partition: the object's type
                    (4, _) => self.item_any(w, ty::GROUP_DATA_OBJECT, |w| {
                        Self::refs(w, &o.mrefs);
                        w.compact(4).u32(o.jcid);
                    }),
                    (1, _) => self.item_any(w, ty::GROUP_DATA_OBJECT, |w| {
                        w.compact(o.oids.len() as u64);
                        for r in &o.oids {
                            w.ex(&r.to);
                        }
                        w.compact((o.osids.len() + o.ctxs.len()) as u64);
                        for r in &o.osids {
                            w.cell(&r.to);
                        }
                        for r in &o.ctxs {
                            w.cell(&r.to);
                        }
                        let s = o.stream();
                        w.compact(s.len() as u64).raw(&s);
                    }),
                    (_, Some(b)) => self.item_any(w, ty::GROUP_DATA_BLOB, |w| {
                        Self::refs(w, &o.brefs);
                        w.ex(b);
                    }),
                    (_, None) => {}
                }
            }
        }
        w.end8(ty::GROUP_DATA as u8);
        w.end8(ty::DATA_ELEMENT);
    }
    pub fn blob(&self, w: &mut W, id: &Ex, data: &[u8]) {
        self.elem(w, id, 0xA);
        self.item_any(w, ty::BLOB, |w| {
            w.compact(data.len() as u64).raw(data);
        });
        w.end8(ty::DATA_ELEMENT);
    }
    pub fn manifest(&self, w: &mut W, id: &Ex, rev: &Ex) {
        self.elem(w, id, 3);
        self.item(w, ty::CELL_MANIFEST, |w| {
            w.ex(rev);
        });
        w.end8(ty::DATA_ELEMENT);
    }
    /// [MS-FSSHTTPB] 2.2.1.12.7: a data element fragment.
    pub fn fragment(&self, w: &mut W, id: &Ex, of: &Ex, total: u64, offset: u64, data: &[u8]) {
        self.elem(w, id, 6);
        let at = w.len();
        w.h32(ty::FRAGMENT, false, 0).ex(of).compact(total).compact(offset).compact(data.len() as u64).raw(data);
        Self::fix(w, at);
        w.end8(ty::DATA_ELEMENT);
    }
    /// The data elements, in the usual order.
    pub fn elems(&self) -> Vec<Vec<u8>> {
        fn one(f: impl FnOnce(&mut W)) -> Vec<u8> {
            let mut w = W::new();
            f(&mut w);
            w.0
        }
        let mut v = vec![];
        if !self.extra.is_empty() {
            v.push(self.extra.clone());
        }
        v.push(one(|w| self.storage_index(w)));
        v.push(one(|w| self.storage_manifest(w)));
        for (id, rev) in &self.manifests {
            v.push(one(|w| self.manifest(w, id, rev)));
        }
        for r in &self.revs {
            v.push(one(|w| self.rev(w, r)));
        }
        for gr in &self.groups {
            v.push(one(|w| self.group(w, gr)));
        }
        for (id, d) in &self.blobs {
            v.push(one(|w| self.blob(w, id, d)));
        }
        v
    }
    /// Everything after the four leading GUIDs, with the given data elements.
    pub fn body_of(&self, w: &mut W, elems: &[Vec<u8>]) {
        w.u32(0);
        let at = w.len();
        w.h32(ty::ONENOTE, true, 0).ex(&self.index_id).raw(&self.schema);
        Self::fix(w, at);
        let at = w.len();
        w.h16(ty::PACKAGE as u16, true, 0).u8(0);
        Self::fix(w, at);
        for e in elems {
            w.raw(e);
        }
        w.end8(ty::PACKAGE).end16(ty::ONENOTE as u16);
    }
    pub fn body(&self, w: &mut W) {
        self.body_of(w, &self.elems())
    }
    pub fn guids(&self, w: &mut W) {
        w.raw(&self.file_type).raw(&[0x21; 16]).raw(&self.legacy_version).raw(&self.file_format);
    }
    /// The whole file, with the given data elements.
    pub fn encode_of(&self, elems: &[Vec<u8>]) -> Vec<u8> {
        let mut w = W(Vec::with_capacity(4096));
        self.guids(&mut w);
        self.body_of(&mut w, elems);
        w.0
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W(Vec::with_capacity(4096));
        self.guids(&mut w);
        self.body(&mut w);
        w.0
    }
}
