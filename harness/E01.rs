//! Path numbers: a number and its encoding determine each other, and every form has the value the format gives it.
use crate::rt::*;
use crate::encoding_util::*;

fn number() -> u32 { byte() as u32 | (byte() as u32) << 8 }
/// every number the one- and two-byte forms can carry
#[no_mangle]
pub extern "C" fn h_round() {
    let n = number();
    assume(n <= 1151);
    let v = put_path_int(n);
    check(get_path_int(&v) == n as usize, "path number changed by a round trip");
    check(v.len() == if n < 128 { 1 } else { 2 }, "a path number has the wrong length");
    if n >= 128 { check(v[0] >= 0x80, "the first byte of a two-byte path number looks like a one-byte one"); } else { check(v[0] < 128, "a one-byte path number looks like the start of a longer one"); }
    witness("end");
}
/// two different numbers never share an encoding
#[no_mangle]
pub extern "C" fn h_apart() {
    let (n, m) = (number(), number());
    assume(n <= 1151 && m <= 1151 && n != m);
    check(put_path_int(n) != put_path_int(m), "two path numbers share an encoding");
    witness("end");
}
/// what every byte sequence stands for
#[no_mangle]
pub extern "C" fn h_value() {
    let k = choose(5);
    let b = bytes(k);
    let v = get_path_int(&b);
    let want = match k {
        1 => b[0] as usize,
        2 => 128 + (b[0] as usize % 4) * 256 + b[1] as usize,
        3 => (b[0] as usize % 16) * 65536 + b[1] as usize * 256 + b[2] as usize,
        _ => 0,
    };
    check(v == want, "a path number does not have its value");
    witness("end");
}
