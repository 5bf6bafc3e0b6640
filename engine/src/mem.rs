//! Copy-on-write symbolic memory. Address = object id << 32 | offset.
use crate::expr::{Arena, E};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    I(u64),
    S(E),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    pub data: Vec<u8>,
    pub sym: Option<Box<[E]>>,
    pub freed: bool,
    pub ro: bool,
    pub heap: bool,
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next: u32,
}

#[derive(Debug, Clone)]
pub enum MemErr {
    Null,
    Bad(u64),
    Freed(u64),
    Oob(u64, u64, u64), // addr, access size, object size
    ReadOnly(u64),
}

fn empty_chunk() -> Chunk {
    [const { None }; CH]
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], next: 1 }
    }

    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Obj { size: size as u32, data: vec![0; size as usize], sym: None, freed: false, ro: false, heap });
        (id as u64) << 32
    }

    pub fn put(&mut self, id: u32, o: Obj) {
        let ci = id as usize / CH;
        while self.chunks.len() <= ci {
            self.chunks.push(None);
        }
        let c = self.chunks[ci].get_or_insert_with(|| Rc::new(empty_chunk()));
        Rc::make_mut(c)[id as usize % CH] = Some(Rc::new(o));
        if id >= self.next {
            self.next = id + 1;
        }
    }

    /// remove the object; later accesses are reported as use after free
    pub fn remove(&mut self, id: u32) {
        let ci = id as usize / CH;
        if let Some(Some(c)) = self.chunks.get_mut(ci) {
            let c2 = Rc::make_mut(c);
            c2[id as usize % CH] = None;
            // a chunk without live objects that will not be allocated into any more is dropped
            if (ci + 1) * CH <= self.next as usize && c2.iter().all(|x| x.is_none()) {
                self.chunks[ci] = None;
            }
        }
    }

    pub fn get(&self, addr: u64) -> Result<&Obj, MemErr> {
        let id = (addr >> 32) as usize;
        match self.chunks.get(id / CH) {
            Some(Some(c)) => match &c[id % CH] {
                Some(o) => Ok(o),
                None => Err(self.err(addr)),
            },
            _ => Err(self.err(addr)),
        }
    }

    fn err(&self, addr: u64) -> MemErr {
        let id = addr >> 32;
        if id == 0 {
            MemErr::Null
        } else if id < self.next as u64 {
            MemErr::Freed(addr)
        } else {
            MemErr::Bad(addr)
        }
    }

    pub fn get_mut(&mut self, addr: u64) -> Result<&mut Obj, MemErr> {
        let id = (addr >> 32) as usize;
        let e = match self.chunks.get(id / CH) {
            Some(Some(c)) if c[id % CH].is_some() => None,
            _ => Some(self.err(addr)),
        };
        if let Some(e) = e {
            return Err(e);
        }
        let c = Rc::make_mut(self.chunks[id / CH].as_mut().unwrap());
        Ok(Rc::make_mut(c[id % CH].as_mut().unwrap()))
    }

    pub fn check(&self, addr: u64, n: u64) -> Result<&Obj, MemErr> {
        let o = self.get(addr)?;
        let off = addr & 0xffff_ffff;
        if off + n > o.size as u64 {
            return Err(MemErr::Oob(addr, n, o.size as u64));
        }
        Ok(o)
    }

    pub fn check_mut(&mut self, addr: u64, n: u64) -> Result<&mut Obj, MemErr> {
        let o = self.get_mut(addr)?;
        let off = addr & 0xffff_ffff;
        if off + n > o.size as u64 {
            return Err(MemErr::Oob(addr, n, o.size as u64));
        }
        if o.ro {
            return Err(MemErr::ReadOnly(addr));
        }
        Ok(o)
    }

    pub fn read(&self, ar: &mut Arena, addr: u64, w: u8) -> Result<V, MemErr> {
        let n = (w as usize + 7) / 8;
        let o = self.check(addr, n as u64)?;
        Ok(o.read(ar, (addr & 0xffff_ffff) as usize, w))
    }

    pub fn write(&mut self, ar: &mut Arena, addr: u64, w: u8, v: V) -> Result<(), MemErr> {
        let n = (w as usize + 7) / 8;
        let o = self.check_mut(addr, n as u64)?;
        o.write(ar, (addr & 0xffff_ffff) as usize, w, v);
        Ok(())
    }
}

impl Obj {
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|&e| e == 0),
        }
    }

    pub fn byte(&self, ar: &mut Arena, off: usize) -> E {
        if let Some(s) = &self.sym {
            if s[off] != 0 {
                return s[off];
            }
        }
        ar.c(self.data[off] as u128, 8)
    }

    pub fn read(&self, ar: &mut Arena, off: usize, w: u8) -> V {
        let n = (w as usize + 7) / 8;
        if w <= 64 && self.is_conc(off, n) {
            let d = &self.data[off..off + n];
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(d);
            let v = u64::from_le_bytes(b);
            return V::I(if w == 64 { v } else { v & ((1u64 << w) - 1) });
        }
        if w > 64 && self.is_conc(off, n) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.data[off..off + n]);
            return V::S(ar.c(u128::from_le_bytes(b), w));
        }
        let mut acc = self.byte(ar, off + n - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte(ar, off + i);
            acc = ar.concat(acc, b);
        }
        let full = (n * 8) as u8;
        if full != w {
            acc = ar.trunc(acc, w);
        }
        norm(ar, acc)
    }

    pub fn write(&mut self, ar: &mut Arena, off: usize, w: u8, v: V) {
        let n = (w as usize + 7) / 8;
        match v {
            V::I(x) => {
                self.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut self.sym {
                    for e in &mut s[off..off + n] {
                        *e = 0;
                    }
                }
            }
            V::S(e) => {
                if let Some(k) = ar.k(e) {
                    self.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    if let Some(s) = &mut self.sym {
                        for e in &mut s[off..off + n] {
                            *e = 0;
                        }
                    }
                    return;
                }
                let size = self.size as usize;
                let full = ar.zext(e, (n * 8) as u8);
                for i in 0..n {
                    let b = ar.extract(full, (i * 8) as u8, 8);
                    self.set_byte_e(ar, off + i, b, size);
                }
            }
        }
    }

    pub fn set_byte_e(&mut self, ar: &Arena, off: usize, b: E, size: usize) {
        match ar.k(b) {
            Some(k) => {
                self.data[off] = k as u8;
                if let Some(s) = &mut self.sym {
                    s[off] = 0;
                }
            }
            None => {
                let s = self.sym.get_or_insert_with(|| vec![0; size].into_boxed_slice());
                s[off] = b;
            }
        }
    }
}

pub fn norm(ar: &Arena, e: E) -> V {
    if ar.w(e) <= 64 {
        if let Some(k) = ar.k(e) {
            return V::I(k as u64);
        }
    }
    V::S(e)
}
