//! Integers: four bytes, most significant first; the value read is the value written.
use crate::rt::*;
use crate::encoding_util::*;

fn number() -> usize { let b = bytes(4); (b[0] as usize) << 24 | (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize }
#[no_mangle]
pub extern "C" fn h_round() {
    let n = number();
    let v = put_int(n);
    check(v.len() == 4, "an integer does not take four bytes");
    check(get_int(&v) == n, "an integer changed by a round trip");
    for i in 0..4 { check(v[i] == (n >> (24 - 8 * i)) as u8, "an integer's bytes are not its value, most significant first"); }
    witness("end");
}
#[no_mangle]
pub extern "C" fn h_order() {
    let (n, m) = (number(), number());
    assume(n < m);
    check(put_int(n) < put_int(m), "encodings of integers do not sort like the integers");
    witness("end");
}
#[no_mangle]
pub extern "C" fn h_value() {
    let k = choose(6);
    let b = bytes(k);
    let v = get_int(&b);
    let mut want = 0;
    if k == 1 || k == 2 || k == 4 { for x in &b { want = want * 256 + *x as usize; } }
    check(v == want, "stored integer read with another value");
    witness("end");
}
