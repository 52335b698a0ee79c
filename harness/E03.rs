//! Stored text: one byte per byte of the text, and reading gives the text back; bytes that are no text are reported, never a crash.
use crate::rt::*;
use crate::encoding_util::*;

/// one character of 1 to 4 bytes, any the encoding allows
fn character(o: &mut Vec<u8>) {
    let k = 1 + choose(4);
    let tail = |o: &mut Vec<u8>| { let b = byte(); assume(b >= 0x80 && b <= 0xbf); o.push(b); };
    match k {
        1 => { let b = byte(); assume(b < 0x80); o.push(b); }
        2 => { let b = byte(); assume(b >= 0xc2 && b <= 0xdf); o.push(b); tail(o); }
        3 => { let b = byte(); assume(b >= 0xe1 && b <= 0xec); o.push(b); tail(o); tail(o); }
        _ => { let b = byte(); assume(b >= 0xf1 && b <= 0xf3); o.push(b); tail(o); tail(o); tail(o); }
    }
}
#[no_mangle]
pub extern "C" fn h_round() {
    let n = choose(param(0) + 1);
    let mut t = vec![];
    for _ in 0..n { character(&mut t); }
    let e = fm_string_encrypt(string(t.clone()));
    check(e.len() == t.len(), "stored text has another length");
    for i in 0..t.len() { check(e[i] ^ t[i] == 0x5A, "a stored byte is not the text's byte under the format's mask"); }
    let d = fm_string_decrypt(&e);
    observe(d.as_bytes());
    check(d.as_bytes() == &t[..], "text changed by a round trip");
    witness("end");
}
#[no_mangle]
pub extern "C" fn h_ascii() {
    let n = choose(param(0) + 1);
    let t: Vec<u8> = (0..n).map(|_| { let b = byte(); assume(b < 0x80); b }).collect();
    let e: Vec<u8> = t.iter().map(|b| b ^ 0x5A).collect();
    check(fm_string_decrypt(&e).as_bytes() == &t[..], "stored text read as another text");
    check(fm_string_encrypt(string(t)) == e, "text stored as other bytes");
    witness("end");
}
/// any bytes at all: text when they are one, a fixed message otherwise
#[no_mangle]
pub extern "C" fn h_any() {
    let n = choose(param(0) + 1);
    let e = bytes(n);
    let d = fm_string_decrypt(&e);
    let t: Vec<u8> = e.iter().map(|b| b ^ 0x5A).collect();
    if std::str::from_utf8(&t).is_ok() { check(d.as_bytes() == &t[..], "stored text read as another text"); } else { check(d == "value not utf-8.", "bytes that are no text were read as a text"); }
    witness("end");
}

/// long texts with a character of any kind in them
#[no_mangle]
pub extern "C" fn h_long() {
    let n = [63usize, 127, 128, 255, 256, 300, 5000][choose(param(0))];
    let at = [0, n / 2, n - 1][choose(3)];
    let mut t = vec![];
    for i in 0..n { if i == at { character(&mut t); } else { t.push(32 + (i % 95) as u8); } }
    let e = fm_string_encrypt(string(t.clone()));
    check(e.len() == t.len(), "stored text has another length");
    for i in 0..t.len() { check(e[i] ^ t[i] == 0x5A, "a stored byte is not the text's byte under the format's mask"); }
    check(fm_string_decrypt(&e).as_bytes() == &t[..], "text changed by a round trip");
    witness("end");
}
