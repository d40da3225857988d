//! Copy-on-write object memory. Address = object id << 32 | offset.
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<T>>, // 0 = the byte in `data` is the value
    pub size: u64,
    pub ro: bool,
}
const CH: usize = 128;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Rc<Vec<u32>>,
    next: u32,
    pub allocated: u64,
}
#[derive(Debug)]
pub enum MErr {
    Bad(String),
}
impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { chunks: vec![], free: Rc::new(vec![]), next: first, allocated: 0 }
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = o;
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        if c[id as usize % CH].is_none() {
            return None;
        }
        Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = if self.free.is_empty() {
            self.next += 1;
            self.next - 1
        } else {
            Rc::make_mut(&mut self.free).pop().unwrap()
        };
        self.allocated += 1;
        let n = if size <= 1 << 16 { size as usize } else { 0 };
        self.set(id, Some(Rc::new(Obj { data: vec![0; n], sym: None, size, ro: false })));
        (id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MErr> {
        let id = (addr >> 32) as u32;
        if addr & 0xffff_ffff != 0 || self.get(id).is_none() {
            return Err(MErr::Bad(format!("free of 0x{:x}", addr)));
        }
        self.set(id, None);
        Rc::make_mut(&mut self.free).push(id);
        Ok(())
    }
    pub fn obj(&self, addr: u64, n: u64) -> Result<(&Obj, u64), MErr> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match self.get(id) {
            Some(o) if off + n <= o.size => Ok((o, off)),
            Some(o) => Err(MErr::Bad(format!("out of bounds: +{} len {} of object of size {}", off, n, o.size))),
            None => Err(MErr::Bad(format!("access to 0x{:x} (no object)", addr))),
        }
    }
    fn obj_mut(&mut self, addr: u64, n: u64) -> Result<(&mut Obj, u64), MErr> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match self.get_mut(id) {
            Some(o) if off + n <= o.size => {
                if o.ro {
                    return Err(MErr::Bad("write to constant".into()));
                }
                Ok((o, off))
            }
            Some(o) => Err(MErr::Bad(format!("out of bounds write: +{} len {} of object of size {}", off, n, o.size))),
            None => Err(MErr::Bad(format!("write to 0x{:x} (no object)", addr))),
        }
    }
    /// read w bits at a concrete address
    pub fn read(&self, addr: u64, w: u16) -> Result<Val, MErr> {
        let n = (w as usize + 7) / 8;
        let (o, off) = self.obj(addr, n as u64)?;
        Ok(read_obj(o, off as usize, w))
    }
    pub fn read_byte(&self, addr: u64) -> Result<Val, MErr> {
        self.read(addr, 8)
    }
    pub fn write(&mut self, addr: u64, v: &Val, w: u16) -> Result<(), MErr> {
        let n = (w as usize + 7) / 8;
        let (o, off) = self.obj_mut(addr, n as u64)?;
        let off = off as usize;
        if o.data.len() < off + n {
            o.data.resize(off + n, 0);
            if let Some(s) = &mut o.sym {
                s.resize(off + n, 0);
            }
        }
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym {
                    for i in off..off + n {
                        s[i] = 0;
                    }
                }
            }
            Val::S(t) => {
                let tm = tm();
                let full = n as u16 * 8;
                let t = tm.zext(*t, full);
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.data.len()]);
                }
                let s = o.sym.as_mut().unwrap();
                if s.len() < o.data.len() {
                    s.resize(o.data.len(), 0);
                }
                for i in 0..n {
                    let b = tm.extract(t, i as u16 * 8, 8);
                    if let Some(k) = tm.cst(b) {
                        o.data[off + i] = k as u8;
                        s[off + i] = 0;
                    } else {
                        s[off + i] = b;
                    }
                }
            }
            Val::A(_) => return Err(MErr::Bad("aggregate store".into())),
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), MErr> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(src, n)?;
        let soff = soff as usize;
        let n = n as usize;
        let mut d = vec![0u8; n];
        if so.data.len() > soff {
            let e = so.data.len().min(soff + n);
            d[..e - soff].copy_from_slice(&so.data[soff..e]);
        }
        let sy = so.sym.as_ref().and_then(|s| {
            if s.len() <= soff {
                return None;
            }
            let e = s.len().min(soff + n);
            if s[soff..e].iter().all(|&x| x == 0) {
                None
            } else {
                let mut v = s[soff..e].to_vec();
                v.resize(n, 0);
                Some(v)
            }
        });
        let (o, off) = self.obj_mut(dst, n as u64)?;
        let off = off as usize;
        if o.data.len() < off + n {
            o.data.resize(off + n, 0);
        }
        o.data[off..off + n].copy_from_slice(&d);
        match sy {
            Some(v) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                if s.len() < len {
                    s.resize(len, 0);
                }
                s[off..off + n].copy_from_slice(&v);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    let len = o.data.len();
                    if s.len() < len {
                        s.resize(len, 0);
                    }
                    for x in &mut s[off..off + n] {
                        *x = 0;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn set_ro(&mut self, id: u32) {
        if let Some(o) = self.get_mut(id) {
            o.ro = true;
        }
    }
    pub fn size_of(&self, addr: u64) -> Option<u64> {
        self.get((addr >> 32) as u32).map(|o| o.size)
    }
}
pub fn read_obj(o: &Obj, off: usize, w: u16) -> Val {
    let n = (w as usize + 7) / 8;
    let issym = match &o.sym {
        Some(s) => (off..off + n).any(|i| i < s.len() && s[i] != 0),
        None => false,
    };
    if !issym {
        let mut b = [0u8; 16];
        for i in 0..n {
            if off + i < o.data.len() {
                b[i] = o.data[off + i];
            }
        }
        return konst(u128::from_le_bytes(b), w);
    }
    let tm = tm();
    let s = o.sym.as_ref().unwrap();
    let mut acc: Option<T> = None;
    for i in 0..n {
        let b = if off + i < s.len() && s[off + i] != 0 {
            s[off + i]
        } else {
            let k = if off + i < o.data.len() { o.data[off + i] } else { 0 };
            tm.konst(k as u128, 8)
        };
        acc = Some(match acc {
            None => b,
            Some(l) => tm.concat(b, l),
        });
    }
    let t = tm.extract(acc.unwrap(), 0, w);
    tv(t)
}
