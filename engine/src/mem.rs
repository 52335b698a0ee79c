//! Flat 64-bit address space: object id = addr >> SLOT; copy-on-write objects with a symbolic byte overlay.
use crate::expr::{Pool, E};
use crate::ir::SLOT;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub base: u64, pub data: Vec<u8>, pub sym: Vec<E>, pub ro: bool, pub heap: bool }
const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone)]
pub struct Mem { chunks: Vec<Option<Rc<Chunk>>>, pub next: u64 }

impl Mem {
    pub fn new(next: u64) -> Mem { Mem { chunks: vec![], next } }
    pub fn insert(&mut self, o: Obj) {
        let id = (o.base >> SLOT) as usize;
        let c = id / CH;
        if self.chunks.len() <= c { self.chunks.resize(c + 1, None); }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new([const { None }; CH]));
        Rc::make_mut(ch)[id % CH] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let base = self.next << SLOT;
        self.next += 1 + (size >> SLOT);
        self.insert(Obj { base, data: vec![0; size as usize], sym: vec![], ro: false, heap });
        base
    }
    #[inline]
    pub fn get(&self, addr: u64) -> Option<&Rc<Obj>> {
        let id = (addr >> SLOT) as usize;
        self.chunks.get(id / CH)?.as_ref()?[id % CH].as_ref()
    }
    /// the object covering [addr, addr+len) (objects larger than a slot are found by walking back)
    #[inline]
    pub fn find(&self, addr: u64, len: u64) -> Option<&Rc<Obj>> {
        if let Some(o) = self.get(addr) {
            if addr >= o.base && addr - o.base + len <= o.data.len() as u64 { return Some(o); }
            return None;
        }
        let mut id = addr >> SLOT;
        for _ in 0..4 {
            if id == 0 { return None; }
            id -= 1;
            if let Some(o) = self.get(id << SLOT) {
                return if addr - o.base + len <= o.data.len() as u64 { Some(o) } else { None };
            }
        }
        None
    }
    #[inline]
    pub fn get_mut(&mut self, base: u64) -> &mut Obj {
        let id = (base >> SLOT) as usize;
        let ch = self.chunks[id / CH].as_mut().unwrap();
        Rc::make_mut(Rc::make_mut(ch)[id % CH].as_mut().unwrap())
    }
    pub fn free(&mut self, base: u64) -> bool {
        let id = (base >> SLOT) as usize;
        if let Some(Some(ch)) = self.chunks.get_mut(id / CH) {
            let ch = Rc::make_mut(ch);
            if ch[id % CH].as_ref().map_or(false, |o| o.base == base) {
                ch[id % CH] = None;
                if ch.iter().all(|x| x.is_none()) { self.chunks[id / CH] = None; }
                return true;
            }
        }
        false
    }
    pub fn bytes(&self, addr: u64, len: u64) -> Option<(Vec<u8>, Vec<E>)> {
        if len == 0 { return Some((vec![], vec![])); }
        let o = self.find(addr, len)?;
        let off = (addr - o.base) as usize;
        let n = len as usize;
        let d = o.data[off..off + n].to_vec();
        let s = if o.sym.is_empty() { vec![] } else { let s = o.sym[off..off + n].to_vec(); if s.iter().all(|&x| x == 0) { vec![] } else { s } };
        Some((d, s))
    }
    pub fn write_bytes(&mut self, addr: u64, d: &[u8], s: &[E]) -> bool {
        if d.is_empty() { return true; }
        let base = match self.find(addr, d.len() as u64) { Some(o) if !o.ro => o.base, _ => return false };
        let o = self.get_mut(base);
        let off = (addr - base) as usize;
        o.data[off..off + d.len()].copy_from_slice(d);
        if !s.is_empty() {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[off..off + d.len()].copy_from_slice(s);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + d.len()] { *x = 0; }
        }
        true
    }
    pub fn count(&self) -> usize { self.chunks.iter().flatten().map(|c| c.iter().flatten().count()).sum() }
}

/// little-endian byte list -> expression
pub fn concat_le(p: &mut Pool, d: &[u8], s: &[E]) -> E {
    let mut e: Option<E> = None;
    for i in 0..d.len() {
        let b = if s[i] != 0 { s[i] } else { p.konst(8, d[i] as u128) };
        e = Some(match e { None => b, Some(x) => p.concat(b, x) });
    }
    e.unwrap()
}
