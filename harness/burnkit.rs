//! Writes burn source text piece by piece and reads back what the compiler made of it.
#![allow(dead_code)]
use crate::rt::*;
use crate::compile::compiler::compile_burn;
use crate::file::FmpFile;

/// a letter or underscore
pub fn letter() -> u8 { let b = byte(); assume((b >= b'a') & (b <= b'z') | (b >= b'A') & (b <= b'Z') | (b == b'_')); b }
/// a letter, digit or underscore
pub fn letter_or_digit() -> u8 { let b = byte(); assume((b >= b'a') & (b <= b'z') | (b >= b'A') & (b <= b'Z') | (b == b'_') | (b >= b'0') & (b <= b'9')); b }
/// a name of n characters; the language's own words are all longer than two characters
pub fn name(n: usize) -> Vec<u8> { let mut v = vec![letter()]; for _ in 1..n { v.push(letter_or_digit()); } v }
/// a name that is not a word of the script language
pub fn not_word(v: &[u8]) { for w in ["if", "let", "end", "elif", "else", "loop", "define", "table", "relationship", "value_list", "table_occurence", "script", "test"] { if v.len() == w.len() { assume(v != w.as_bytes()); } } }
/// a name whose first character is any, the rest fixed
pub fn named(rest: &str) -> Vec<u8> { let mut v = vec![letter()]; v.extend_from_slice(rest.as_bytes()); v }
/// a printable character that is none of the given ones
pub fn printable_but(not: &[u8]) -> u8 { let b = byte(); assume((b >= 0x20) & (b <= 0x7e)); for n in not { assume(b != *n); } b }
/// blanks: at least one where `must`
pub fn blank(must: bool) -> &'static str { if must { [" ", "\n", "\t ", " \r\n  "][choose(4)] } else { ["", " ", "\n\n", "\t"][choose(4)] } }

/// source text: words, marks and the blanks between them
/// (with the places where the blanks are any)
pub struct S { pub t: Vec<u8>, pub vary: Vec<usize>, pub at: usize }
impl S {
    pub fn new() -> S { S { t: vec![], vary: vec![], at: 0 } }
    pub fn varied(n: usize, places: usize) -> S { S { t: vec![], vary: (0..n).map(|_| choose(places)).collect(), at: 0 } }
    fn gap(&mut self, must: bool) { self.at += 1; let k = self.at; let g = if self.vary.contains(&k) { blank(must) } else if must { " " } else { "" }; self.raw(g.as_bytes()); }
    pub fn raw(&mut self, b: &[u8]) -> &mut S { self.t.extend_from_slice(b); self }
    /// a word, kept apart from the one before it
    pub fn word(&mut self, b: &[u8]) -> &mut S {
        let must = match self.t.last() { Some(c) => c.is_ascii_alphanumeric() || *c == b'_', None => false };
        self.gap(must);
        self.raw(b)
    }
    /// a mark, which needs no blank around it
    pub fn mark(&mut self, b: &str) -> &mut S { self.gap(false); self.raw(b.as_bytes()) }
    pub fn end(&mut self, what: &str) -> &mut S { self.word(b"end").word(what.as_bytes()).mark(";").raw(b"\n") }
    pub fn compile(self) -> FmpFile { let s = string(self.t); let f = compile_burn(&s); std::mem::forget(s); f }
}
pub fn same(a: &str, b: &[u8], what: &str) { check(a.as_bytes() == b, what) }

/// what a source text declares, in order
#[derive(Default)]
pub struct Want { pub tables: Vec<Vec<u8>>, pub lists: Vec<Vec<u8>>, pub occurrences: Vec<(Vec<u8>, Vec<u8>)>, pub relationships: Vec<(Vec<u8>, Vec<u8>)>, pub scripts: Vec<Vec<u8>>, pub tests: Vec<(Vec<u8>, Vec<u8>)> }
impl Want {
    pub fn expect(&self, f: &FmpFile) {
        check(f.tables.len() == self.tables.len(), "another number of tables");
        for (i, n) in self.tables.iter().enumerate() { match f.tables.get(&(i + 1)) { Some(t) => { same(&t.table_name, n, "a table has another name"); } None => fail("a declared table is missing") } }
        check(f.value_lists.len() == self.lists.len(), "another number of value lists");
        for (i, n) in self.lists.iter().enumerate() { match f.value_lists.get(&(i + 1)) { Some(t) => same(&t.list_name, n, "a value list has another name"), None => fail("a declared value list is missing") } }
        check(f.table_occurrences.len() == self.occurrences.len(), "another number of occurrences");
        for (i, (n, t)) in self.occurrences.iter().enumerate() { match f.table_occurrences.get(&i) { Some(o) => { same(&o.table_occurence_name, n, "an occurrence has another name"); same(&o.table_actual_name, t, "an occurrence shows another table"); } None => fail("a declared occurrence is missing") } }
        check(f.relationships.len() == self.relationships.len(), "another number of relationships");
        for (i, (a, b)) in self.relationships.iter().enumerate() { match f.relationships.get(&(i + 1)) { Some(r) => { same(&r.table1_name, a, "a relationship starts at another occurrence"); same(&r.table2_name, b, "a relationship leads to another occurrence"); } None => fail("a declared relationship is missing") } }
        check(f.scripts.len() == self.scripts.len(), "another number of scripts");
        for (i, n) in self.scripts.iter().enumerate() { match f.scripts.get(&(i + 1)) { Some(s) => same(&s.script_name, n, "a script has another name"), None => fail("a declared script is missing") } }
        check(f.tests.len() == self.tests.len(), "another number of tests");
        for (t, (n, s)) in f.tests.iter().zip(&self.tests) { same(&t.test_name, n, "a test has another name"); same(&t.script.script_name, s, "a test runs another script"); }
        check(f.layouts.is_empty() && f.data_sources.is_empty(), "something undeclared appeared");
    }
}
/// one declaration of the given kind, with its name or names
pub fn declare(s: &mut S, w: &mut Want, kind: usize, a: Vec<u8>, b: Vec<u8>) {
    match kind {
        0 => { s.word(b"table").word(&a).mark(":"); s.word(b"key").mark(":").word(b"Text").mark(",").end("table"); w.tables.push(a); }
        1 => { s.word(b"table_occurence").word(&a).mark(":"); s.word(b"table").mark(":").word(&b).mark(",").end("table_occurence"); w.occurrences.push((a, b)); }
        2 => { s.word(b"value_list").word(&a).mark(":"); s.mark("\"one\"").mark(",").mark("\"two\"").end("value_list"); w.lists.push(a); }
        3 => { s.word(b"relationship").mark(":"); s.word(&a).mark(":").word(&b).mark(",").word(b"key").mark("==").word(b"id").mark(",").end("relationship"); w.relationships.push((a, b)); }
        4 => { s.word(b"script").mark(":").mark("["); s.word(b"define").word(&a).mark("()").mark("{").mark("}"); s.word(b"define").word(&b).mark("(x)").mark("{").mark("}"); s.mark("]").raw(b"\n"); w.scripts.push(a); w.scripts.push(b); }
        _ => { s.word(b"test").word(&a).mark(":"); s.word(b"script").mark(":").mark("["); s.word(b"define").word(&b).mark("()").mark("{").mark("}").mark("]").mark(",").end("test"); w.tests.push((a, b)); }
    }
}
/// the n-th of many names: each its own, none a word of the language
pub fn nth_name(i: usize) -> Vec<u8> { format!("N{}_{}", i, (b'a' + (i % 26) as u8) as char).into_bytes() }
