//! The directory path over a run of chunks, and where the run ends.
use crate::rt::*;
use crate::chunk::*;

/// one chunk of any kind, written to `o`; what it does to the path is applied to `p`
fn some_chunk(o: &mut Vec<u8>, p: &mut Vec<usize>) {
    let close_too = flag();
    let at = o.len();
    match choose(9) {
        0 => { let d = byte(); assume(d != 0xfe); let d = one_digit(d); o.extend_from_slice(&[0x20, d]); p.push(d as usize); }
        1 => { let (h, l) = (byte(), byte()); assume(h & 3 < 2 && l < 2); let (h, l) = (split(h as usize & 3), split(l as usize)); o.extend_from_slice(&[0x28, 0xfc | h as u8, l as u8]); p.push(128 + h * 256 + l); }
        2 => { let l = choose(2); o.extend_from_slice(&[0x30, 0xd0, 1, l as u8]); p.push(256 + l); }
        3 => { let l = choose(2); o.extend_from_slice(&[0x38, 2, 0x80, l as u8]); p.push(128 + l); }
        4 => { o.push(0x40); p.pop(); }
        5 => { o.push(0x3d); p.pop(); }
        6 => { let n = choose(3); o.extend_from_slice(&[0x06, byte(), n as u8]); for _ in 0..n { o.push(byte()); } }
        7 => { o.extend_from_slice(&[0x11, byte(), byte(), byte(), byte()]); }
        _ => { o.extend_from_slice(&[0x00, byte()]); }
    }
    // the two top bits of a code close the current directory after the chunk
    if close_too && o[at] & 0xc0 == 0 { o[at] |= 0xc0; p.pop(); }
}
fn one_digit(d: u8) -> u8 { assume(d < 10); split(d as usize % 10) as u8 }
#[no_mangle]
pub extern "C" fn h_path() {
    let n = param(0);
    let mut b = vec![];
    let mut p: Vec<usize> = vec![];
    let mut want = vec![];
    let mut ends = vec![];
    let lead = choose(2);
    for _ in 0..lead { b.push(byte()); }
    for _ in 0..n { some_chunk(&mut b, &mut p); want.push(p.clone()); ends.push(b.len()); }
    let total = b.len();
    for _ in 0..4 { b.push(byte()); }
    let mut path: Vec<String> = vec![];
    let mut off = lead;
    let mut k = 0;
    while off < total {
        check(k < n, "a run of chunks was read as more chunks");
        let c = match get_chunk_from_code(&b, &mut off, &mut path, 0) { Ok(c) => c, Err(_) => fail("a chunk of the format was refused") };
        check(off == ends[k], "a chunk takes another number of bytes");
        let w: Vec<String> = want[k].iter().map(|d| d.to_string()).collect();
        check(c.path == w && path == w, "the path is not the directories opened and not closed");
        k += 1;
    }
    check(k == n, "a run of chunks was read as fewer chunks");
    witness("end");
}
/// arbitrary bytes: every step moves forward or refuses, so reading always ends
#[no_mangle]
pub extern "C" fn h_any() {
    let n = param(0);
    let mut b = bytes(n);
    let total = b.len();
    for _ in 0..24 { b.push(0); }
    let mut path: Vec<String> = vec![];
    let mut off = 0;
    // a length or key reaching past the end of the file is refused by a panic
    panic_ok(true);
    while off < total {
        let before = off;
        match get_chunk_from_code(&b, &mut off, &mut path, 0) {
            Ok(c) => {
                panic_ok(false);
                check(off > before, "reading a chunk does not move forward");
                if let Some(d) = c.data { check(d.as_ptr() as usize >= b.as_ptr() as usize + before && d.as_ptr() as usize + d.len() <= b.as_ptr() as usize + b.len(), "a chunk's data lie outside the file"); }
                panic_ok(true);
            }
            Err(_) => break,
        }
    }
    panic_ok(false);
    witness("end");
}

/// long runs: many chunks, directories nested deeply, one chunk of any kind among them
#[no_mangle]
pub extern "C" fn h_long() {
    let n = param(0);
    let deep = choose(3);
    let at = [0, n / 2, n - 1][choose(3)];
    let (mut b, mut p, mut want, mut ends) = (vec![], Vec::<usize>::new(), vec![], vec![]);
    for i in 0..n {
        if i == at { some_chunk(&mut b, &mut p); } else {
            match if deep == 0 { i % 4 } else if deep == 1 { 2 * (i % 2) } else if i < n / 2 { 2 } else { 3 } {
                0 => { b.push(6); b.push(16); let k = (i * 5) % 200; b.push(k as u8); for j in 0..k { b.push((i + j) as u8); } }
                1 => b.push(0x80),
                2 => { let d = 128 + i % 1024; b.extend_from_slice(&[0x28, 0xfc | ((d - 128) >> 8) as u8, (d - 128) as u8]); p.push(d); }
                _ => { b.push(0x40); p.pop(); }
            }
        }
        want.push(p.clone());
        ends.push(b.len());
    }
    let total = b.len();
    for _ in 0..4 { b.push(byte()); }
    let mut path: Vec<String> = vec![];
    let mut off = 0;
    let mut k = 0;
    while off < total {
        check(k < n, "a run of chunks was read as more chunks");
        let c = match get_chunk_from_code(&b, &mut off, &mut path, 0) { Ok(c) => c, Err(_) => fail("a chunk of the format was refused") };
        check(off == ends[k], "a chunk takes another number of bytes");
        let w: Vec<String> = want[k].iter().map(|d| d.to_string()).collect();
        check(c.path == w && path == w, "the path is not the directories opened and not closed");
        k += 1;
    }
    check(k == n, "a run of chunks was read as fewer chunks");
    witness("end");
}
