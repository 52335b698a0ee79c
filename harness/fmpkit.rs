//! Writes database files the way the format describes them and reads them with the real decompiler.
#![allow(dead_code)]
use crate::rt::*;
use crate::decompile::decompiler::decompile_fmp12_file;
use crate::file::FmpFile;

/// the payload of a sector under construction
#[derive(Clone)]
pub struct W { pub b: Vec<u8> }
impl W {
    pub fn new() -> W { W { b: vec![] } }
    /// open a directory, in its shortest form
    pub fn push(&mut self, d: usize) { self.push_as(if d < 128 { 1 } else if d < 1152 { 2 } else { 3 }, d) }
    pub fn push_as(&mut self, form: usize, d: usize) {
        match form {
            1 => { self.b.push(0x20); self.b.push(d as u8); }
            2 => { self.b.push(0x28); self.b.push(0xfc | ((d - 128) >> 8) as u8); self.b.push(((d - 128) & 255) as u8); }
            _ => { self.b.push(0x30); self.b.push(0xd0 | (d >> 16) as u8); self.b.push(((d >> 8) & 255) as u8); self.b.push((d & 255) as u8); }
        }
    }
    pub fn pop(&mut self) { self.b.push(0x40); }
    pub fn noop(&mut self) { self.b.push(0x80); }
    pub fn path(&mut self, p: &[usize]) { for d in p { self.push(*d); } }
    pub fn up(&mut self, n: usize) { for _ in 0..n { self.pop(); } }
    /// a value under a one-byte key, with its length stated
    pub fn kv(&mut self, key: u8, v: &[u8]) { self.b.push(6); self.b.push(key); self.b.push(v.len() as u8); self.b.extend_from_slice(v); }
    /// the same without a stated length, where the size has its own code
    pub fn kv_fixed(&mut self, key: u8, v: &[u8]) {
        let c = match v.len() { 1 => 1, 2 => 2, 4 => 3, 6 => 4, 8 => 5, _ => { self.kv(key, v); return; } };
        self.b.push(c); self.b.push(key); self.b.extend_from_slice(v);
    }
    /// a value under a two-byte key
    pub fn kv_e(&mut self, key: usize, v: &[u8]) { self.b.push(0x0e); self.b.push(0xfc | ((key - 128) >> 8) as u8); self.b.push(((key - 128) & 255) as u8); self.b.push(v.len() as u8); self.b.extend_from_slice(v); }
    /// a value without key
    pub fn data(&mut self, v: &[u8]) { self.b.push(0x23); self.b.push(v.len() as u8); self.b.extend_from_slice(v); }
    pub fn seg(&mut self, k: u8, v: &[u8]) { self.b.push(7); self.b.push(k); self.b.push((v.len() >> 8) as u8); self.b.push(v.len() as u8); self.b.extend_from_slice(v); }
}
/// text as it is stored
pub fn enc(t: &[u8]) -> Vec<u8> { t.iter().map(|b| b ^ 0x5A).collect() }
/// a printable character
pub fn printable() -> u8 { let b = byte(); assume(b >= 0x20); assume(b <= 0x7e); b }
pub fn text(n: usize) -> Vec<u8> { (0..n).map(|_| printable()).collect() }
/// fill a payload up to the end of its sector with chunks that say nothing
pub fn pad(p: &mut Vec<u8>) {
    check(p.len() <= 4076, "harness: a sector overflows");
    let r = 4076 - p.len();
    if r >= 6 { p.push(0x17); p.extend_from_slice(&[0, 0, 0, ((r - 6) >> 8) as u8, ((r - 6) & 255) as u8]); p.resize(4076, 0); } else { p.resize(4076, 0x80); }
}
pub fn header(o: &mut Vec<u8>, prev: usize, next: usize) {
    let mut h = vec![0u8; 20];
    for i in 0..4 { h[4 + i] = (prev >> (24 - 8 * i)) as u8; h[8 + i] = (next >> (24 - 8 * i)) as u8; }
    o.extend_from_slice(&h);
}
/// a file whose chain visits the given sector numbers (the first is 2), each with its payload
pub fn file(total: usize, chain: &[(usize, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![0u8; 4096];
    header(&mut o, 0, total);
    o.resize(8192, 0);
    for n in 2..=total {
        match chain.iter().position(|(k, _)| *k == n) {
            Some(i) => {
                header(&mut o, if i == 0 { 0 } else { chain[i - 1].0 }, if i + 1 < chain.len() { chain[i + 1].0 } else { 0 });
                let mut p = chain[i].1.clone();
                pad(&mut p);
                o.extend_from_slice(&p);
            }
            None => o.resize((n + 1) * 4096, 0),
        }
    }
    o
}
/// a file of consecutive sectors
pub fn simple(payloads: Vec<Vec<u8>>) -> Vec<u8> {
    let n = payloads.len();
    let chain: Vec<(usize, Vec<u8>)> = payloads.into_iter().enumerate().map(|(i, p)| (i + 2, p)).collect();
    file(n + 1, &chain)
}
pub fn decompile(b: &[u8]) -> FmpFile {
    file_put("f.fmp12", b);
    decompile_fmp12_file(std::path::Path::new("f.fmp12"))
}
/// entries of a file one after the other, over as many sectors as they take; directories stay open where they can
pub struct Many { done: Vec<Vec<u8>>, w: W, open: Vec<usize> }
impl Many {
    pub fn new() -> Many { Many { done: vec![], w: W::new(), open: vec![] } }
    /// continue in the given directory, in a new sector if less than `room` bytes are left in this one
    pub fn at(&mut self, p: &[usize], room: usize) -> &mut W {
        if self.w.b.len() + room + 100 > 4076 { self.next(); }
        let same = (0..self.open.len().min(p.len())).take_while(|j| self.open[*j] == p[*j]).count();
        self.w.up(self.open.len() - same);
        self.w.path(&p[same..]);
        self.open = p.to_vec();
        &mut self.w
    }
    pub fn next(&mut self) { let w = std::mem::replace(&mut self.w, W::new()); self.done.push(w.b); self.open.clear(); }
    pub fn finish(mut self) -> Vec<u8> { self.next(); simple(self.done) }
}
/// the n-th of many names, or one with any character
pub fn nth(i: usize, at: usize) -> Vec<u8> { let mut v = format!("n{}", i).into_bytes(); if i == at { v.push(printable()); } v }
