//! Assembles files with the real assembler and reads their chunks back.
#![allow(dead_code)]
use crate::rt::*;
use crate::chunk::{get_chunk_from_code, Chunk, ChunkType};
use crate::compile::assembler::Assembler;
use crate::component::*;
use crate::file::FmpFile;

pub fn assemble(f: &FmpFile) -> Vec<u8> {
    let mut a = Assembler::new(f);
    a.assemble_fmp12(f);
    a.emit_assembly("out");
    match file_get("out.fmp12", 65536) { Some(v) => v, None => fail("no file is written") }
}
pub fn be(b: &[u8], at: usize) -> usize { let mut v = 0; for i in 0..4 { v = v * 256 + b[at + i] as usize; } v }
/// something stored in a directory
pub struct Item<'a> { pub path: Vec<String>, pub key: Option<u16>, pub long: Option<&'a [u8]>, pub data: &'a [u8] }
/// all that is stored in a sector; the chunks must fill it up to its zeros, and every directory must be closed
pub fn items(b: &[u8], sector: usize) -> (Vec<Item<'_>>, Vec<Vec<String>>) {
    let p = &b[sector * 4096 + 20..(sector + 1) * 4096];
    let (mut at, mut path) = (0usize, vec![]);
    let (mut v, mut dirs) = (vec![], vec![]);
    let end = p.iter().rposition(|c| *c != 0).map_or(0, |x| x + 1);
    while at < end {
        let depth = path.len();
        let c: Chunk = match get_chunk_from_code(p, &mut at, &mut path, 0) { Ok(c) => c, Err(_) => fail("the file holds something that is no chunk") };
        match c.ctype {
            ChunkType::PathPush => dirs.push(c.path.clone()),
            ChunkType::PathPop => check(depth > 0, "more directories are closed than opened"),
            ChunkType::Noop => {}
            _ => {
                if c.ctype == ChunkType::DataSimple && c.data.map_or(true, |d| d.is_empty()) { continue; }
                v.push(Item { path: c.path, key: c.ref_simple, long: c.ref_data, data: c.data.unwrap_or(&[]) });
            }
        }
    }
    check(path.is_empty(), "a directory is not closed");
    (v, dirs)
}
pub fn is(p: &[String], q: &[&str]) -> bool { p.len() == q.len() && p.iter().zip(q).all(|(a, b)| a == b) }
/// the one value stored at a place
pub fn value<'a>(v: &[Item<'a>], p: &[&str], key: u16) -> &'a [u8] {
    let mut it = v.iter().filter(|i| is(&i.path, p) && i.key == Some(key));
    let x = match it.next() { Some(x) => x, None => fail("a value is missing") };
    check(it.next().is_none(), "a value is stored twice");
    x.data
}
/// a name over the letters the format can store, and the two bytes of each as the format has them
pub fn name(n: usize) -> (Vec<u8>, Vec<u8>) {
    const M: [(u8, u8, u8); 28] = [(0x2, 0xa, b' '), (0x2, 0x1d, b'_'), (0x12, 0xf, b'a'), (0x12, 0x25, b'b'), (0x12, 0x3d, b'c'), (0x12, 0x50, b'd'), (0x12, 0x6b, b'e'), (0x12, 0xa3, b'f'),
        (0x12, 0xb0, b'g'), (0x12, 0xd3, b'h'), (0x12, 0xec, b'i'), (0x13, 0x5, b'j'), (0x13, 0x1e, b'k'), (0x13, 0x30, b'l'), (0x13, 0x5f, b'm'), (0x13, 0x6d, b'n'), (0x13, 0x8e, b'o'),
        (0x13, 0xb3, b'p'), (0x13, 0xc8, b'q'), (0x13, 0xda, b'r'), (0x14, 0x10, b's'), (0x14, 0x33, b't'), (0x14, 0x53, b'u'), (0x14, 0x7b, b'v'), (0x14, 0x8d, b'w'), (0x14, 0x97, b'x'), (0x14, 0x9c, b'y'), (0x14, 0xad, b'z')];
    let (mut t, mut e) = (vec![], vec![]);
    for _ in 0..n { let (h, l, c) = M[choose(28)]; t.push(if c >= b'a' && flag() { c - 32 } else { c }); e.push(h); e.push(l); }
    (t, e)
}
/// a name of the given length whose characters follow from its number
pub fn plain(i: usize, n: usize) -> (Vec<u8>, Vec<u8>) {
    const L: [(u8, u8, u8); 4] = [(0x12, 0xf, b'a'), (0x13, 0x5, b'j'), (0x14, 0xad, b'z'), (0x2, 0x1d, b'_')];
    let (mut t, mut e, mut k) = (vec![], vec![], i);
    for _ in 0..n { let (h, l, c) = L[k % 4]; k = k / 4; t.push(c); e.push(h); e.push(l); }
    (t, e)
}
pub fn table(f: &mut FmpFile, id: usize, name: &[u8]) { let mut t = FMComponentTable::new(); t.table_name = string(name.to_vec()); f.tables.insert(id, t); }
pub fn occurrence(f: &mut FmpFile, id: usize, name: &[u8]) { let mut t = FMComponentTableOccurence::new(); t.table_occurence_name = string(name.to_vec()); t.table_actual_name = "T".to_string(); f.table_occurrences.insert(id, t); }
pub fn script(f: &mut FmpFile, id: usize) { let mut s = FMComponentScript::new(); s.script_name = "s".to_string(); if id == 2 { s.instructions.push(crate::fm_script_engine::fm_script_engine_instructions::ScriptStep { opcode: crate::fm_script_engine::fm_script_engine_instructions::Instruction::Loop, index: 1, switches: vec![] }); } f.scripts.insert(id, s); }
/// other objects of a file
pub fn others(f: &mut FmpFile, n: usize) {
    for i in 0..choose(n + 1) { script(f, i + 1); let mut l = FMComponentLayout::new(); l.layout_name = "l".to_string(); f.layouts.insert(i * 4 + 3, l); }
    if flag() { let mut v = FMComponentValueList::new(); v.list_name = "v".to_string(); f.value_lists.insert(1, v); }
    if flag() { f.relationships.insert(1, FMComponentRelationship::new()); }
}
/// each table of a list is stored once, under its number, with its name
pub fn expect_tables(v: &[Item], dirs: &[Vec<String>], want: &[(usize, Vec<u8>)]) {
    let names: Vec<&Item> = v.iter().filter(|i| is(&i.path, &["3", "16", "1", "1"])).collect();
    check(names.len() == want.len(), "another number of tables is named");
    let ids: Vec<&Item> = v.iter().filter(|i| is(&i.path, &["3", "16", "1", "3"])).collect();
    check(ids.len() == want.len(), "another number of tables is listed");
    for (id, e) in want {
        let n = match names.iter().find(|n| n.data.len() == 3 && n.data[2] as usize == *id) { Some(n) => n, None => fail("a table is not named") };
        check(n.data[0] == 2 && n.data[1] == 128, "a table's number is stored in another form");
        let mut w = e.clone();
        w.extend_from_slice(&[0, 0, 0]);
        match n.long { Some(l) => { observe(l); check(l == &w[..], "a table has another name"); } None => fail("a table has no name") }
        let k = [0, 0, (*id >> 8) as u8, *id as u8];
        let mut it = ids.iter().filter(|n| n.long == Some(&k[..]));
        match it.next() { Some(n) => check(n.data == &k[..], "a table is listed under another number"), None => fail("a table is not listed") }
        check(it.next().is_none(), "a table is listed twice");
        let d = (128 + *id).to_string();
        check(dirs.iter().filter(|p| is(p, &["3", "16", "1", "5", &d])).count() == 1, "a table does not have one directory");
    }
    check(dirs.iter().filter(|p| p.len() == 5 && is(&p[..4], &["3", "16", "1", "5"])).count() == want.len(), "another number of directories of tables");
    check(value(v, &["3", "16", "1"], 4) == &[0, 0, (want.len() >> 8) as u8, want.len() as u8], "another number of tables is stated");
}
/// each occurrence of a list is stored once, in one order of names and numbers
pub fn expect_occurrences(v: &[Item], want: &[(usize, Vec<u8>)]) {
    let names: Vec<&Item> = v.iter().filter(|i| is(&i.path, &["3", "17", "1", "1"])).collect();
    let ids: Vec<&Item> = v.iter().filter(|i| is(&i.path, &["3", "17", "1", "3"])).collect();
    check(names.len() == want.len() && ids.len() == want.len(), "another number of occurrences is stored");
    for (id, e) in want {
        let k = [0, 0, (*id >> 8) as u8, *id as u8];
        let p = match ids.iter().position(|n| n.data == &k[..]) { Some(p) => p, None => fail("an occurrence is not listed") };
        let mut w = e.clone();
        w.extend_from_slice(&[0, 0, 0, 0]);
        observe(names[p].data);
        check(names[p].data == &w[..], "an occurrence has another name");
    }
}
/// a name over the letters of `plain`, as the format has it
pub fn stored(n: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for c in n { v.extend_from_slice(match c { b'a' => &[0x12, 0xf], b'j' => &[0x13, 0x5], b'z' => &[0x14, 0xad], b'_' => &[0x2, 0x1d], _ => fail("harness: another letter") }); }
    v
}
