//! The layout of an assembled file.
use crate::rt::*;
use crate::hx_asmkit::*;
use crate::file::FmpFile;

/// the sectors and the name of the file
#[no_mangle]
pub extern "C" fn h_layout() {
    let mut f = FmpFile::new();
    let n = choose(param(0) + 1);
    let mut name: Vec<u8> = vec![];
    for _ in 0..n { if flag() { let c = byte(); assume((c >= 0x80) & (c <= 0xbf)); name.extend_from_slice(&[0xc3, c]); } else { let c = byte(); assume((c >= 0x20) & (c <= 0x7e)); name.push(c); } }
    f.name = string(name.clone());
    for i in 0..choose(param(1) + 1) { table(&mut f, i + 1, b"t"); }
    for i in 0..choose(param(1) + 1) { occurrence(&mut f, i, b"o"); }
    others(&mut f, 1);
    let b = assemble(&f);
    name.push(b'/');
    observe(&b[3082..3082 + name.len()]);
    check(&b[3082..3082 + name.len()] == &name[..], "the header has another name");
    let h = crate::compile::header::HEADER_INIT;
    check(&b[..3082] == &h[..3082] && &b[3082 + name.len()..h.len()] == &h[3082 + name.len()..], "the header is another one");
    // the first sector states how many there are, the others form a chain that visits each once and ends
    check(b.len() > 8192, "the file is too short");
    let total = be(&b, 4096 + 8);
    check(b.len() + 1 >= total * 4096, "the file is shorter than its header says");
    let (mut at, mut left) = (2, total);
    let mut seen = vec![];
    while at != 0 {
        check(at >= 2 && at <= total && !seen.contains(&at) && left > 0, "the sectors form no chain");
        seen.push(at);
        left -= 1;
        let s = at * 4096;
        check(s + 12 <= b.len(), "a sector lies outside of the file");
        let next = be(&b, s + 8);
        if next == 0 { break; }
        at = next;
    }
    check(seen.len() + 1 == total, "a sector is not part of the chain");
    for s in 3..=total.min(b.len() / 4096 - 1) { check(b[s * 4096 + 20..(s + 1) * 4096].iter().all(|c| *c == 0), "a sector without content has some"); }
    witness("end");
}
/// an assembled file can be read
#[no_mangle]
pub extern "C" fn h_read() {
    let mut f = FmpFile::new();
    f.name = "n".to_string();
    let m = [0usize, 1, 126, 128, 254][choose(5)];
    for i in 0..choose(param(0) + 1) { if m + i + 1 < 256 { table(&mut f, m + i + 1, b"tab"); } }
    for i in 0..choose(param(0) + 1) { occurrence(&mut f, m * 3 + i, b"occ"); }
    others(&mut f, 1);
    let b = assemble(&f);
    items(&b, 2);
    let g = crate::decompile::decompiler::decompile_fmp12_file(std::path::Path::new("out.fmp12"));
    check(g.relationships.is_empty() && g.layouts.is_empty() && g.data_sources.is_empty(), "something appears that was not written");
    witness("end");
}
/// the code of a stored value fits its size
#[no_mangle]
pub extern "C" fn h_code() {
    let n = choose(param(0) + 1);
    let v = bytes(n.min(3)).into_iter().chain(std::iter::repeat(7)).take(n).collect::<Vec<u8>>();
    let f = FmpFile::new();
    let c = crate::compile::assembler::Assembler::new(&f).calc_small_kv_ins(&v);
    // what the code says is read back: a code of its own size, or one that states the size
    let mut b = vec![c, 9];
    if c == 6 { b.push(n as u8); }
    b.extend_from_slice(&v);
    b.resize(n + 16, 0x80);
    let (mut at, mut path) = (0, vec![]);
    match crate::chunk::get_chunk_from_code(&b, &mut at, &mut path, 0) {
        Ok(k) => { check(k.ref_simple == Some(9), "a value has another key"); check(k.data == Some(&v[..]), "a value is read with another size"); }
        Err(_) => fail("a value's code is none"),
    }
    witness("end");
}
