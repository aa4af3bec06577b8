//! Copy-on-write object memory with concrete base addresses.
use crate::expr::*;
use crate::ir::SLOT;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Const,
    Stack,
    Heap,
    Dead,
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub size: u64,
    pub tag: u32,         // allocation site (function id) for reports
    pub conc: Vec<u8>,    // bytes beyond conc.len() are zero
    pub sym: Vec<(u32, Ex)>, // sorted byte offsets with symbolic content
}
impl Obj {
    #[inline]
    fn overlaps(&self, off: u64, n: u64) -> bool {
        if self.sym.is_empty() {
            return false;
        }
        let lo = self.sym[0].0 as u64;
        let hi = self.sym[self.sym.len() - 1].0 as u64;
        if off > hi || off + n <= lo {
            return false;
        }
        let i = self.sym.partition_point(|x| (x.0 as u64) < off);
        i < self.sym.len() && (self.sym[i].0 as u64) < off + n
    }
    #[inline]
    pub fn byte(&self, off: u64) -> u8 {
        *self.conc.get(off as usize).unwrap_or(&0)
    }
    #[inline]
    pub fn symbyte(&self, off: u64) -> Option<Ex> {
        if self.sym.is_empty() {
            return None;
        }
        match self.sym.binary_search_by_key(&(off as u32), |x| x.0) {
            Ok(i) => Some(self.sym[i].1),
            Err(_) => None,
        }
    }
    pub fn bex(&self, off: u64) -> Ex {
        match self.symbyte(off) {
            Some(e) => e,
            None => c(self.byte(off) as u128, 8),
        }
    }
    #[inline]
    pub fn is_sym(&self, off: u64, n: u64) -> bool {
        self.overlaps(off, n)
    }
    #[inline]
    fn ensure(&mut self, end: u64) {
        if (self.conc.len() as u64) < end {
            // amortised growth, never past the object
            if (self.conc.capacity() as u64) < end {
                let want = (end.max(32) * 2).min(self.size.max(end));
                self.conc.reserve_exact((want - self.conc.len() as u64) as usize);
            }
            self.conc.resize(end as usize, 0);
        }
    }
    fn clear_sym(&mut self, off: u64, n: u64) {
        if self.overlaps(off, n) {
            let i = self.sym.partition_point(|x| (x.0 as u64) < off);
            let j = self.sym.partition_point(|x| (x.0 as u64) < off + n);
            self.sym.drain(i..j);
        }
    }
    #[inline]
    pub fn write_c(&mut self, off: u64, n: u64, v: u128) {
        self.clear_sym(off, n);
        self.ensure(off + n);
        let b = v.to_le_bytes();
        self.conc[off as usize..(off + n) as usize].copy_from_slice(&b[..n as usize]);
    }
    pub fn write_b(&mut self, off: u64, e: Ex) {
        if let Some(k) = is_const(e) {
            self.write_c(off, 1, k);
            return;
        }
        match self.sym.binary_search_by_key(&(off as u32), |x| x.0) {
            Ok(i) => self.sym[i].1 = e,
            Err(i) => self.sym.insert(i, (off as u32, e)),
        }
    }
    #[inline]
    pub fn read_c(&self, off: u64, n: u64) -> u128 {
        let mut b = [0u8; 16];
        let l = self.conc.len() as u64;
        if off + n <= l {
            b[..n as usize].copy_from_slice(&self.conc[off as usize..(off + n) as usize]);
        } else if off < l {
            let k = (l - off) as usize;
            b[..k].copy_from_slice(&self.conc[off as usize..]);
        }
        u128::from_le_bytes(b)
    }
    #[inline]
    pub fn read_c64(&self, off: u64, n: u64) -> u64 {
        let l = self.conc.len() as u64;
        if n == 8 && off + 8 <= l {
            return u64::from_le_bytes(self.conc[off as usize..off as usize + 8].try_into().unwrap());
        }
        if n == 1 {
            return self.byte(off) as u64;
        }
        self.read_c(off, n) as u64
    }
}

const CH: usize = 128;
#[derive(Clone)]
struct Chunk {
    o: Vec<Rc<Obj>>,
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    n: usize,
    pub heap_live: usize,
    pub gen: u64,
}
thread_local! {
    static DEAD: Rc<Obj> = Rc::new(Obj { kind: Kind::Dead, size: 0, tag: 0, conc: vec![], sym: vec![] });
}

#[derive(Debug, Clone)]
pub enum MErr {
    Null,
    Wild,
    Oob,
    Freed,
    ReadOnly,
    TooBig,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], n: 0, heap_live: 0, gen: 0 }
    }
    pub fn alloc(&mut self, kind: Kind, size: u64, tag: u32) -> u64 {
        let id = self.n;
        self.n += 1;
        if id / CH == self.chunks.len() {
            self.chunks.push(Rc::new(Chunk { o: Vec::with_capacity(CH) }));
        }
        let ch = Rc::make_mut(&mut self.chunks[id / CH]);
        ch.o.push(Rc::new(Obj { kind, size, tag, conc: vec![], sym: vec![] }));
        if kind == Kind::Heap {
            self.heap_live += 1;
        }
        (id as u64 + 16) << SLOT
    }
    #[inline]
    pub fn get(&self, addr: u64, n: u64) -> Result<(&Obj, u64), MErr> {
        let id = ((addr >> SLOT) as usize).wrapping_sub(16);
        if id >= self.n {
            return Err(if addr < 4096 { MErr::Null } else { MErr::Wild });
        }
        let o = &self.chunks[id / CH].o[id % CH];
        let off = addr & ((1 << SLOT) - 1);
        if off + n > o.size {
            return Err(if o.kind == Kind::Dead { MErr::Freed } else { MErr::Oob });
        }
        Ok((o, off))
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64, n: u64) -> Result<(&mut Obj, u64), MErr> {
        let id = ((addr >> SLOT) as usize).wrapping_sub(16);
        if id >= self.n {
            return Err(if addr < 4096 { MErr::Null } else { MErr::Wild });
        }
        let off = addr & ((1 << SLOT) - 1);
        let ch = Rc::make_mut(&mut self.chunks[id / CH]);
        let o = &mut ch.o[id % CH];
        if off + n > o.size {
            return Err(if o.kind == Kind::Dead { MErr::Freed } else { MErr::Oob });
        }
        if o.kind == Kind::Const {
            return Err(MErr::ReadOnly);
        }
        Ok((Rc::make_mut(o), off))
    }
    pub fn init_obj(&mut self, addr: u64) -> &mut Obj {
        let id = (addr >> SLOT) as usize - 16;
        let ch = Rc::make_mut(&mut self.chunks[id / CH]);
        Rc::make_mut(&mut ch.o[id % CH])
    }
    pub fn free(&mut self, addr: u64, kind: Kind) -> Result<(), MErr> {
        let id = ((addr >> SLOT) as usize).wrapping_sub(16);
        if id >= self.n {
            return Err(MErr::Wild);
        }
        if addr & ((1 << SLOT) - 1) != 0 {
            return Err(MErr::Oob);
        }
        let ch = Rc::make_mut(&mut self.chunks[id / CH]);
        let o = &mut ch.o[id % CH];
        if o.kind == Kind::Dead {
            return Err(MErr::Freed);
        }
        if o.kind != kind {
            return Err(MErr::Wild);
        }
        *o = DEAD.with(|d| d.clone());
        if kind == Kind::Heap {
            self.heap_live -= 1;
        }
        Ok(())
    }
    pub fn live_heap(&self) -> Vec<(u64, u64, u32)> {
        let mut r = vec![];
        for i in 0..self.n {
            let o = &self.chunks[i / CH].o[i % CH];
            if o.kind == Kind::Heap {
                r.push(((i as u64 + 16) << SLOT, o.size, o.tag));
            }
        }
        r
    }
    pub fn count(&self) -> usize {
        self.n
    }
}

impl Obj {
    /// write n bytes starting at off: `bytes` then zeros
    pub fn copy_in(&mut self, off: u64, n: u64, bytes: &[u8]) {
        self.clear_sym(off, n);
        let l = bytes.len() as u64;
        let cl = self.conc.len() as u64;
        if off + l > cl && l > 0 {
            self.ensure(off + l);
        }
        if l > 0 {
            self.conc[off as usize..(off + l) as usize].copy_from_slice(bytes);
        }
        // zero tail within materialised bytes
        let cl = self.conc.len() as u64;
        let (s, e) = ((off + l).min(cl), (off + n).min(cl));
        for b in &mut self.conc[s as usize..e as usize] {
            *b = 0;
        }
    }
}
