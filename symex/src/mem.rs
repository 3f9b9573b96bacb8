//! Copy-on-write object memory. Address = object id << 32 | offset.
use crate::expr::{FxMap, E};
use crate::ir::Module;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<BTreeMap<u32, E>>> }
impl Obj {
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym { None => false, Some(m) => m.range(off as u32..(off + n) as u32).next().is_some() }
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(m) = &mut self.sym {
            if n < 32 { for i in off..off + n { m.remove(&(i as u32)); } }
            else { let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|x| *x.0).collect(); for k in ks { m.remove(&k); } }
            if m.is_empty() { self.sym = None; }
        }
    }
    pub fn set_sym(&mut self, off: usize, e: E) { self.sym.get_or_insert_with(Default::default).insert(off as u32, e); }
}
const CH: usize = 32;
#[derive(Clone)]
struct Chunk { o: [Option<Rc<Obj>>; CH] }
#[derive(Clone)]
pub struct Mem {
    m: &'static Module,
    nglob: u32,
    glob: FxMap<u32, Rc<Obj>>,
    base: Rc<Vec<Rc<Obj>>>,
    chunks: Vec<Rc<Chunk>>,
    next: u32,
    free: Vec<u32>,
    pub live: u64,
}
#[derive(Debug)]
pub struct MemErr(pub String);
impl Mem {
    pub fn new(m: &'static Module) -> Mem {
        let base: Vec<Rc<Obj>> = m.globals.iter().map(|g| Rc::new(Obj { data: g.data.clone(), sym: None })).collect();
        Mem { m, nglob: m.globals.len() as u32, glob: Default::default(), base: Rc::new(base), chunks: vec![], next: 0, free: vec![], live: 0 }
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let i = match self.free.pop() { Some(i) => i, None => { let i = self.next; self.next += 1; i } };
        let (c, k) = (i as usize / CH, i as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Rc::new(Chunk { o: std::array::from_fn(|_| None) })); }
        Rc::make_mut(&mut self.chunks[c]).o[k] = Some(Rc::new(Obj { data: vec![0; size], sym: None }));
        self.live += 1;
        ((i as u64) + self.nglob as u64 + 1) << 32
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MemErr> {
        let id = (addr >> 32) as u32;
        if id <= self.nglob || addr as u32 != 0 { return Err(MemErr(format!("bad free {:#x}", addr))); }
        let i = (id - self.nglob - 1) as usize;
        let (c, k) = (i / CH, i % CH);
        if c >= self.chunks.len() || self.chunks[c].o[k].is_none() { return Err(MemErr(format!("double free {:#x}", addr))); }
        Rc::make_mut(&mut self.chunks[c]).o[k] = None;
        self.free.push(i as u32);
        self.live -= 1;
        Ok(())
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        if id == 0 { return None; }
        if id <= self.nglob {
            let g = id - 1;
            if !self.m.globals[g as usize].constant { if let Some(o) = self.glob.get(&g) { return Some(o); } }
            return Some(&self.base[g as usize]);
        }
        let i = (id - self.nglob - 1) as usize;
        let c = self.chunks.get(i / CH)?;
        c.o[i % CH].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id == 0 { return None; }
        if id <= self.nglob {
            let g = id - 1;
            let base = &self.base;
            let r = self.glob.entry(g).or_insert_with(|| base[g as usize].clone());
            return Some(Rc::make_mut(r));
        }
        let i = (id - self.nglob - 1) as usize;
        let c = self.chunks.get_mut(i / CH)?;
        Rc::make_mut(c).o[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn size_of(&self, addr: u64) -> Option<u64> { self.get((addr >> 32) as u32).map(|o| o.data.len() as u64) }
    #[inline]
    pub fn range(&self, addr: u64, n: usize) -> Result<&Obj, MemErr> {
        let off = addr as u32 as usize;
        match self.get((addr >> 32) as u32) {
            Some(o) if off + n <= o.data.len() => Ok(o),
            Some(o) => Err(MemErr(format!("out of bounds access {:#x}+{} (object size {})", addr, n, o.data.len()))),
            None => Err(MemErr(format!("invalid access {:#x}+{}", addr, n))),
        }
    }
    #[inline]
    pub fn range_mut(&mut self, addr: u64, n: usize) -> Result<&mut Obj, MemErr> {
        let off = addr as u32 as usize;
        match self.get_mut((addr >> 32) as u32) {
            Some(o) if off + n <= o.data.len() => Ok(o),
            Some(o) => Err(MemErr(format!("out of bounds write {:#x}+{} (object size {})", addr, n, o.data.len()))),
            None => Err(MemErr(format!("invalid write {:#x}+{}", addr, n))),
        }
    }
    pub fn realloc(&mut self, addr: u64, size: usize) -> Result<u64, MemErr> {
        let id = (addr >> 32) as u32;
        let o = self.get_mut(id).ok_or_else(|| MemErr("realloc".into()))?;
        if size < o.data.len() { let n = o.data.len(); o.clear_sym(size, n - size); }
        o.data.resize(size, 0);
        Ok(addr)
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let so = src as u32 as usize;
        let d_o = dst as u32 as usize;
        let s = self.range(src, n)?;
        let mut buf = [0u8; 256];
        let mut big;
        let tmp: &mut [u8] = if n <= 256 { &mut buf[..n] } else { big = vec![0u8; n]; &mut big };
        tmp.copy_from_slice(&s.data[so..so + n]);
        let syms: Vec<(u32, E)> = match &s.sym { None => vec![], Some(m) => m.range(so as u32..(so + n) as u32).map(|(k, v)| (*k - so as u32 + d_o as u32, *v)).collect() };
        let d = self.range_mut(dst, n)?;
        d.data[d_o..d_o + n].copy_from_slice(tmp);
        if d.sym.is_some() { d.clear_sym(d_o, n); }
        for (k, v) in syms { d.set_sym(k as usize, v); }
        Ok(())
    }
}
