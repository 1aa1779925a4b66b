//! Byte-addressed symbolic memory: object id in the upper 32 address bits, offset in the lower 32.

use crate::expr::E;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 8-bit expression, 0 = concrete
    pub sym: Option<Vec<E>>,
}

const CH: usize = 64;

#[derive(Clone)]
struct Chunk([Option<Rc<Obj>>; CH]);

#[derive(Clone)]
pub struct Mem {
    m: Arc<Module>,
    first: u32,
    chunks: Vec<Rc<Chunk>>,
    next: u32,
    free: Vec<u32>,
    glob: BTreeMap<u32, Rc<Obj>>,
    pub live: usize,
}

pub enum Rd<'a> {
    Const(&'a [u8]),
    Obj(&'a Obj),
}

impl Mem {
    pub fn new(m: Arc<Module>) -> Mem {
        let first = GLOBAL_ID0 as u32 + m.globals.len() as u32 + 16;
        Mem { m, first, chunks: vec![], next: 0, free: vec![], glob: BTreeMap::new(), live: 0 }
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let i = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                if i as usize / CH >= self.chunks.len() {
                    self.chunks.push(Rc::new(Chunk([const { None }; CH])));
                }
                i
            }
        };
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None });
        Rc::make_mut(&mut self.chunks[i as usize / CH]).0[i as usize % CH] = Some(o);
        self.live += 1;
        ((self.first + i) as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let id = (addr >> 32) as u32;
        if id < self.first || addr as u32 != 0 || id - self.first >= self.next {
            return Err(format!("free of {addr:#x}"));
        }
        let i = id - self.first;
        let c = Rc::make_mut(&mut self.chunks[i as usize / CH]);
        if c.0[i as usize % CH].take().is_none() {
            return Err(format!("double free of {addr:#x}"));
        }
        self.free.push(i);
        self.live -= 1;
        Ok(())
    }
    pub fn size(&self, addr: u64) -> Option<u64> {
        match self.get(addr) {
            Ok(Rd::Const(c)) => Some(c.len() as u64),
            Ok(Rd::Obj(o)) => Some(o.data.len() as u64),
            Err(_) => None,
        }
    }
    #[inline]
    pub fn get(&self, addr: u64) -> Result<Rd<'_>, String> {
        let id = (addr >> 32) as u32;
        if id >= self.first {
            let i = (id - self.first) as usize;
            if let Some(c) = self.chunks.get(i / CH) {
                if let Some(o) = &c.0[i % CH] {
                    return Ok(Rd::Obj(o));
                }
            }
            return Err(format!("access to dead object {addr:#x}"));
        }
        if id < GLOBAL_ID0 as u32 {
            return Err(format!("access to invalid address {addr:#x}"));
        }
        let g = (id - GLOBAL_ID0 as u32) as usize;
        if let Some(gi) = self.m.globals.get(g) {
            if gi.constant {
                return Ok(Rd::Const(&gi.init));
            }
            if gi.external && gi.init.is_empty() {
                return Err(format!("access to external global {}", gi.name));
            }
            if let Some(o) = self.glob.get(&id) {
                return Ok(Rd::Obj(o));
            }
            return Ok(Rd::Const(&gi.init));
        }
        Err(format!("access to invalid address {addr:#x}"))
    }
    pub fn get_mut(&mut self, addr: u64) -> Result<&mut Obj, String> {
        let id = (addr >> 32) as u32;
        if id >= self.first {
            let i = (id - self.first) as usize;
            if i / CH < self.chunks.len() {
                if let Some(o) = &mut Rc::make_mut(&mut self.chunks[i / CH]).0[i % CH] {
                    return Ok(Rc::make_mut(o));
                }
            }
            return Err(format!("write to dead object {addr:#x}"));
        }
        if id < GLOBAL_ID0 as u32 {
            return Err(format!("write to invalid address {addr:#x}"));
        }
        let g = (id - GLOBAL_ID0 as u32) as usize;
        match self.m.globals.get(g) {
            None => Err(format!("write to invalid address {addr:#x}")),
            Some(gi) if gi.constant => Err(format!("write to constant {}", gi.name)),
            Some(gi) => {
                let init = &gi.init;
                let o = self
                    .glob
                    .entry(id)
                    .or_insert_with(|| Rc::new(Obj { data: init.clone(), sym: None }));
                Ok(Rc::make_mut(o))
            }
        }
    }
    /// is the addressed object free of symbolic bytes in [addr, addr+n)?
    #[inline]
    pub fn read<'a>(&'a self, addr: u64, n: usize) -> Result<(&'a [u8], Option<&'a [E]>), String> {
        let off = (addr & 0xffff_ffff) as usize;
        match self.get(addr)? {
            Rd::Const(c) => {
                if off + n > c.len() {
                    return Err(format!("read out of bounds {addr:#x}+{n} of {}", c.len()));
                }
                Ok((&c[off..off + n], None))
            }
            Rd::Obj(o) => {
                if off + n > o.data.len() {
                    return Err(format!("read out of bounds {addr:#x}+{n} of {}", o.data.len()));
                }
                Ok((&o.data[off..off + n], o.sym.as_ref().map(|s| &s[off..off + n])))
            }
        }
    }
    pub fn write(&mut self, addr: u64, d: &[u8], s: Option<&[E]>) -> Result<(), String> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = d.len();
        let o = self.get_mut(addr)?;
        if off + n > o.data.len() {
            return Err(format!("write out of bounds {addr:#x}+{n} of {}", o.data.len()));
        }
        o.data[off..off + n].copy_from_slice(d);
        match s {
            Some(s) if s.iter().any(|e| *e != 0) => {
                let len = o.data.len();
                let v = o.sym.get_or_insert_with(|| vec![0; len]);
                v[off..off + n].copy_from_slice(s);
            }
            _ => {
                if let Some(v) = &mut o.sym {
                    v[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), String> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let mut buf = [0u8; 256];
        let (d, s): (Vec<u8>, Option<Vec<E>>);
        {
            let (rd, rs) = self.read(src, n)?;
            if rs.is_none() && n <= 256 {
                buf[..n].copy_from_slice(rd);
                d = vec![];
                s = None;
            } else {
                d = rd.to_vec();
                s = rs.map(|x| x.to_vec());
            }
        }
        if d.is_empty() {
            self.write(dst, &buf[..n], None)
        } else {
            self.write(dst, &d, s.as_deref())
        }
    }
    pub fn realloc(&mut self, p: u64, n: u64) -> Result<u64, String> {
        // in place: keep the object id, change the size
        let o = self.get_mut(p)?;
        o.data.resize(n as usize, 0);
        if let Some(s) = &mut o.sym {
            s.resize(n as usize, 0);
        }
        Ok(p)
    }
}
