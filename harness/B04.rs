//! The chain of sectors: which sectors are read, in what order, and what happens when the chain never ends.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::decompile::sector::get_sector;

/// the fields of a sector's header
#[no_mangle]
pub extern "C" fn h_header() {
    let b = bytes(24);
    let s = get_sector(&b);
    let be = |i: usize| (b[i] as usize) << 24 | (b[i + 1] as usize) << 16 | (b[i + 2] as usize) << 8 | b[i + 3] as usize;
    check(s.deleted == (b[0] != 0), "a sector is deleted exactly when its first byte is set");
    check(s.level == b[1] as u32, "a sector's level is its second byte");
    check(s.previous as usize == be(4), "a sector's predecessor is read wrong");
    check(s.next == be(8), "a sector's successor is read wrong");
    check(s.payload.len() == 4, "a sector's payload starts elsewhere");
    for i in 0..4 { check(s.payload[i] == b[20 + i], "a sector's payload is other bytes"); }
    check(s.chunks.is_empty(), "a sector holds chunks before any were read");
    witness("end");
}
/// one step of script 1: 28 bytes, its code at 21, its number after its length byte
pub fn step(code: u8, index: u8) -> Vec<u8> { let mut v = vec![0u8; 28]; v[0] = 2; v[2] = index; v[21] = code; v }
/// sector n adds step n to the script; the script's name stands in the sector read first
#[no_mangle]
pub extern "C" fn h_order() {
    let total = 2 + choose(param(0));
    let next: Vec<usize> = (2..=total).map(|_| { let b = byte(); assume(b != 1 && (b as usize) <= total); split(b as usize) }).collect();
    let mut o = vec![0u8; 4096];
    header(&mut o, 0, total);
    o.resize(8192, 0);
    for n in 2..=total {
        header(&mut o, byte() as usize, next[n - 2]);
        let mut w = W::new();
        if n == 2 { w.path(&[17, 1, 1, 1]); w.kv(16, &enc(b"s")); w.up(4); }
        w.path(&[17, 5, 1]);
        w.kv(4, &step(4 + n as u8, n as u8));
        w.up(3);
        let mut p = w.b;
        pad(&mut p);
        o.extend_from_slice(&p);
    }
    let mut want = vec![];
    let mut at = 2;
    while at != 0 && want.len() <= total { want.push(at); at = next[at - 2]; }
    let cycle = at != 0;
    panic_ok(cycle);
    let f = decompile(&o);
    panic_ok(false);
    check(!cycle, "a chain of sectors without end was accepted");
    let s = match f.scripts.get(&1) { Some(s) => s, None => fail("the script of the file is missing") };
    let got: Vec<usize> = s.instructions.iter().map(|i| i.index).collect();
    check(got == want, "the sectors were not read in the order of their chain");
    witness("end");
}
/// a chain that leaves the file is refused
#[no_mangle]
pub extern "C" fn h_outside() {
    let mut o = vec![0u8; 4096];
    header(&mut o, 0, 3);
    o.resize(8192, 0);
    let which = choose(2);
    for n in 0..2 {
        let to = if n == which { let b = byte(); assume(b > 3); (byte() as usize) << 8 | b as usize } else if n == 0 { 3 } else { 0 };
        header(&mut o, 0, to);
        let mut p = vec![];
        pad(&mut p);
        o.extend_from_slice(&p);
    }
    panic_ok(true);
    witness("end");
    decompile(&o);
    panic_ok(false);
    fail("a chain of sectors that leaves the file was accepted");
}
/// entries at the very end of a sector are read, and the next sector starts outside every directory
#[no_mangle]
pub extern "C" fn h_edge() {
    let name = text(2);
    let left = choose(3); // bytes left over after the entry, filled with chunks of one byte
    let kind = choose(3);
    let mut tail = W::new();
    match kind { 0 => tail.kv(16, &enc(&name)), 1 => tail.kv_fixed(16, &enc(&name)), _ => tail.push(131) }
    let mut w = W::new();
    w.path(&[3, 16, 5]);
    if kind < 2 { w.push(130); }
    let room = 4076 - w.b.len() - tail.b.len() - left;
    w.b.extend_from_slice(&[0x17, 0, 0, 0, ((room - 6) >> 8) as u8, ((room - 6) & 255) as u8]);
    let at = w.b.len() + room - 6;
    w.b.resize(at, 0);
    w.b.extend_from_slice(&tail.b);
    for _ in 0..left { w.noop(); }
    // all directories are still open here
    let mut v = W::new();
    v.path(&[3, 16, 5, 140]);
    v.kv(16, &enc(b"N"));
    let f = decompile(&simple(vec![w.b, v.b]));
    check(f.tables.len() == 2, "another number of tables");
    match f.tables.get(&12) { Some(t) => check(t.table_name == "N", "an entry at the start of the next sector is lost"), None => fail("an entry at the start of the next sector is lost") }
    match f.tables.get(&if kind < 2 { 2 } else { 3 }) { Some(t) => check(kind == 2 || t.table_name.as_bytes() == &name[..], "an entry at the end of a sector is lost"), None => fail("an entry at the end of a sector is lost") }
    witness("end");
}
/// a long chain that visits its sectors in another order than they are stored
#[no_mangle]
pub extern "C" fn h_long() {
    let total = param(0) + 1;
    // from sector 2 on in steps that reach every sector, turned around or not
    let n = total - 1;
    let stride = [1, n - 1, 7][choose(3)];
    let chain: Vec<usize> = (0..n).map(|k| 2 + (k * stride) % n).collect();
    let at = [0, n / 2, n - 1][choose(3)];
    let x = printable();
    let mut ps: Vec<(usize, Vec<u8>)> = vec![];
    for (k, s) in chain.iter().enumerate() {
        let mut w = W::new();
        w.path(&[17, 1, 1, k + 1]);
        w.kv(16, &enc(&if k == at { vec![b's', x] } else { format!("s{}", s).into_bytes() }));
        ps.push((*s, w.b));
    }
    let f = decompile(&file(total, &ps));
    check(f.scripts.len() == n, "another number of sectors was read");
    for (k, s) in chain.iter().enumerate() { match f.scripts.get(&(k + 1)) { Some(g) => check(g.script_name.as_bytes() == &if k == at { vec![b's', x] } else { format!("s{}", s).into_bytes() }[..], "a sector was read wrong"), None => fail("a sector was not read") } }
    witness("end");
}
