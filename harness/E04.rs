//! Catalog names: two bytes per character from the format's own character set.
use crate::rt::*;
use crate::dbcharconv::*;

/// the format's codes
fn code(c: u8) -> (u8, u8) {
    match c {
        b' ' => (0x02, 0x0a), b'_' => (0x02, 0x1d),
        b'a' => (0x12, 0x0f), b'b' => (0x12, 0x25), b'c' => (0x12, 0x3d), b'd' => (0x12, 0x50), b'e' => (0x12, 0x6b), b'f' => (0x12, 0xa3), b'g' => (0x12, 0xb0), b'h' => (0x12, 0xd3), b'i' => (0x12, 0xec),
        b'j' => (0x13, 0x05), b'k' => (0x13, 0x1e), b'l' => (0x13, 0x30), b'm' => (0x13, 0x5f), b'n' => (0x13, 0x6d), b'o' => (0x13, 0x8e), b'p' => (0x13, 0xb3), b'q' => (0x13, 0xc8), b'r' => (0x13, 0xda),
        b's' => (0x14, 0x10), b't' => (0x14, 0x33), b'u' => (0x14, 0x53), b'v' => (0x14, 0x7b), b'w' => (0x14, 0x8d), b'x' => (0x14, 0x97), b'y' => (0x14, 0x9c), b'z' => (0x14, 0xad),
        _ => (0, 0),
    }
}
const SET: &[u8] = b" _abcdefghijklmnopqrstuvwxyz";
/// names over the character set come back unchanged, with or without their terminator
#[no_mangle]
pub extern "C" fn h_round() {
    let n = choose(param(0) + 1);
    let t: Vec<u8> = (0..n).map(|_| one_of(SET)).collect();
    let mut e = encode_text(&string(t.clone()));
    check(e.len() == 2 * n, "a name does not take two bytes per character");
    for i in 0..n { let (h, l) = code(t[i]); check(e[2 * i] == h && e[2 * i + 1] == l, "a character does not have the format's code"); }
    if flag() { e.push(0); e.push(0); }
    if flag() { e.push(0); }
    let d = decode_bytes(&e);
    observe(d.as_bytes());
    check(d.as_bytes() == &t[..], "a name changed by a round trip");
    witness("end");
}
/// any ASCII name: letters lose their case, characters outside the set take a blank code of their own width
#[no_mangle]
pub extern "C" fn h_ascii() {
    let n = 1 + choose(param(0));
    let t: Vec<u8> = (0..n).map(|_| { let b = byte(); assume(b < 0x80); b }).collect();
    let e = encode_text(&string(t.clone()));
    check(e.len() == 2 * n, "a name does not take two bytes per character");
    for i in 0..n {
        let c = if t[i] >= b'A' && t[i] <= b'Z' { t[i] + 32 } else { t[i] };
        let (h, l) = code(c);
        check(e[2 * i] == h && e[2 * i + 1] == l, "a character does not have the format's code");
    }
    witness("end");
}
/// any two bytes decode to the character that has them, or to a question mark
#[no_mangle]
pub extern "C" fn h_decode() {
    let (h, l) = (byte(), byte());
    let c = decode_char(h, l);
    if h == 0 && l == 0 { check(c == '\0', "the terminator decodes to a character"); }
    else {
        let mut want = '?';
        for &x in SET { if code(x) == (h, l) { want = x as char; } }
        check(c == want, "a code decodes to another character");
    }
    let d = decode_bytes(&[h, l]);
    let mut b = [0u8; 4];
    check(d == if c == '\0' { "" } else { &*c.encode_utf8(&mut b) }, "a name of one character decodes differently from the character");
    witness("end");
}

/// long names with any character in them
#[no_mangle]
pub extern "C" fn h_long() {
    let n = [31usize, 63, 64, 127, 128, 129, 255, 256, 300][choose(param(0))];
    let at = [0, n / 2, n - 1][choose(3)];
    let t: Vec<u8> = (0..n).map(|i| if i == at { one_of(SET) } else { SET[i * 5 % SET.len()] }).collect();
    let mut e = encode_text(&string(t.clone()));
    check(e.len() == 2 * n, "a name does not take two bytes per character");
    for i in 0..n { let (h, l) = code(t[i]); check(e[2 * i] == h && e[2 * i + 1] == l, "a character does not have the format's code"); }
    if flag() { e.push(0); e.push(0); }
    check(decode_bytes(&e).as_bytes() == &t[..], "a name changed by a round trip");
    witness("end");
}
