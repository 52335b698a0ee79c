//! Reads a JSON report, without the crate that wrote it.
#![allow(dead_code)]
use crate::rt::*;

/// a value of the report
pub enum V { S(Vec<u8>), N(Vec<u8>), L(Vec<V>), O(Vec<(Vec<u8>, V)>) }
pub struct R<'a> { pub b: &'a [u8], pub at: usize }
impl<'a> R<'a> {
    fn skip(&mut self) { while self.at < self.b.len() && (self.b[self.at] == b' ' || self.b[self.at] == b'\n') { self.at += 1; } }
    fn peek(&mut self) -> u8 { if self.at >= self.b.len() { fail("the report ends early") } self.b[self.at] }
    fn take(&mut self, c: u8) { check(self.peek() == c, "the report is not well formed"); self.at += 1; }
    fn hex(&mut self) -> u8 { let c = self.peek(); self.at += 1; match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => fail("an escape of the report is not well formed") } }
    fn four(&mut self) -> u32 { let mut c = 0u32; for _ in 0..4 { c = c << 4 | self.hex() as u32; } c }
    fn text(&mut self) -> Vec<u8> {
        let mut v = vec![];
        self.take(b'"');
        loop {
            let c = self.peek();
            self.at += 1;
            if c == b'"' { return v; }
            check(c >= 0x20, "a text of the report holds a bare control character");
            if c != b'\\' { v.push(c); continue; }
            let e = self.peek();
            self.at += 1;
            match e {
                b'n' => v.push(10), b't' => v.push(9), b'r' => v.push(13), b'b' => v.push(8), b'f' => v.push(12),
                b'"' | b'\\' | b'/' => v.push(e),
                b'u' => {
                    let mut c = self.four();
                    if (c >= 0xd800) & (c < 0xdc00) { self.take(b'\\'); self.take(b'u'); let l = self.four(); check((l >= 0xdc00) & (l < 0xe000), "an escape of the report is not well formed"); c = 0x10000 + ((c - 0xd800) << 10) + (l - 0xdc00); }
                    if c < 0x80 { v.push(c as u8) }
                    else if c < 0x800 { v.push(0xc0 | (c >> 6) as u8); v.push(0x80 | (c & 63) as u8) }
                    else if c < 0x10000 { v.push(0xe0 | (c >> 12) as u8); v.push(0x80 | (c >> 6 & 63) as u8); v.push(0x80 | (c & 63) as u8) }
                    else { v.push(0xf0 | (c >> 18) as u8); v.push(0x80 | (c >> 12 & 63) as u8); v.push(0x80 | (c >> 6 & 63) as u8); v.push(0x80 | (c & 63) as u8) }
                }
                _ => fail("an escape of the report is not well formed"),
            }
        }
    }
    fn value(&mut self) -> V {
        self.skip();
        match self.peek() {
            b'"' => V::S(self.text()),
            b'{' => {
                self.at += 1;
                let mut v = vec![];
                self.skip();
                if self.peek() == b'}' { self.at += 1; return V::O(v); }
                loop { self.skip(); let k = self.text(); self.skip(); self.take(b':'); let x = self.value(); v.push((k, x)); self.skip(); if self.peek() == b'}' { self.at += 1; return V::O(v); } self.take(b','); }
            }
            b'[' => {
                self.at += 1;
                let mut v = vec![];
                self.skip();
                if self.peek() == b']' { self.at += 1; return V::L(v); }
                loop { let x = self.value(); v.push(x); self.skip(); if self.peek() == b']' { self.at += 1; return V::L(v); } self.take(b','); }
            }
            _ => { let s = self.at; while self.at < self.b.len() && !b",]}\n ".contains(&self.b[self.at]) { self.at += 1; } V::N(self.b[s..self.at].to_vec()) }
        }
    }
}
impl V {
    pub fn get(&self, k: &str) -> &V {
        match self { V::O(v) => { let mut it = v.iter().filter(|(a, _)| a == k.as_bytes()); let x = match it.next() { Some(x) => x, None => fail("the report leaves something out") }; check(it.next().is_none(), "the report names something twice"); &x.1 } _ => fail("the report is of another shape") }
    }
    pub fn is(&self, w: &str) { match self { V::S(t) => { observe(t); check(t == w.as_bytes(), "the report has another text") } _ => fail("the report is of another shape") } }
    pub fn num(&self, n: usize) { match self { V::N(t) => check(t == n.to_string().as_bytes(), "the report has another number"), _ => fail("the report is of another shape") } }
    pub fn len(&self, n: usize) { match self { V::O(v) => check(v.len() == n, "the report has another number of objects"), V::L(v) => check(v.len() == n, "the report has another number of objects"), _ => fail("the report is of another shape") } }
    pub fn at(&self, i: usize) -> &V { match self { V::L(v) if i < v.len() => &v[i], _ => fail("the report leaves something out") } }
}
/// a whole report
pub fn report(b: &[u8]) -> V {
    let mut r = R { b, at: 0 };
    let v = r.value();
    r.skip();
    check(r.at == b.len(), "the report goes on after its end");
    v
}
