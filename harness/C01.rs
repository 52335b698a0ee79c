//! Declarations of a source file.
use crate::rt::*;
use crate::hx_burnkit::*;

/// any sequence of declarations
#[no_mangle]
pub extern "C" fn h_sequence() {
    let n = choose(param(0) + 1);
    let mut s = S::new();
    let mut w = Want::default();
    for i in 0..n {
        let t = (b'0' + i as u8) as char;
        declare(&mut s, &mut w, choose(6), named(&format!("{}a", t)), named(&format!("{}b", t)));
    }
    w.expect(&s.compile());
    witness("end");
}
/// any names
#[no_mangle]
pub extern "C" fn h_names() {
    let kind = choose(6);
    let (la, lb) = (1 + choose(param(0)), 1 + choose(param(1)));
    let (a, b) = (name(la), name(lb));
    not_word(&a); not_word(&b);
    let mut s = S::new();
    let mut w = Want::default();
    declare(&mut s, &mut w, kind, a, b);
    // the declarations before and after it are not affected
    declare(&mut s, &mut w, 0, b"Other".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// names as long as words of the language, or longer
#[no_mangle]
pub extern "C" fn h_long_names() {
    let kind = choose(6);
    let n = 3 + choose(param(0) - 2);
    let a = name(n);
    not_word(&a);
    let mut s = S::new();
    let mut w = Want::default();
    let (a, b) = if flag() { (a, b"Bb".to_vec()) } else { (b"Bb".to_vec(), a) };
    declare(&mut s, &mut w, kind, a, b);
    declare(&mut s, &mut w, 0, b"Other".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// names that begin like words or numbers of the language
#[no_mangle]
pub extern "C" fn h_words() {
    const N: [&str; 20] = ["tables", "Table", "en", "ends", "End", "testing", "tes", "script1", "scripted", "value_lists", "value", "relation", "relationships", "inf", "nan", "infinity", "NaN", "e5", "_1", "define"];
    let kind = choose(6);
    let (a, b) = (N[choose(N.len())], N[choose(N.len())]);
    if kind >= 4 && (b == "define" || a == "define") { reject("a word of the script language"); }
    let mut s = S::new();
    let mut w = Want::default();
    declare(&mut s, &mut w, kind, a.as_bytes().to_vec(), b.as_bytes().to_vec());
    declare(&mut s, &mut w, 0, b"Other".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// any blanks between the words
#[no_mangle]
pub extern "C" fn h_blanks() {
    let kind = choose(6);
    let mut s = S::varied(param(0), 30);
    let mut w = Want::default();
    declare(&mut s, &mut w, kind, b"Ab".to_vec(), b"cd".to_vec());
    declare(&mut s, &mut w, 0, b"Other".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// many declarations of one kind, one of them with any name
#[no_mangle]
pub extern "C" fn h_many() {
    let kind = choose(6);
    let n = param(0);
    let at = [0, n / 2, n - 2, n - 1][choose(4)];
    let mut s = S::new();
    let mut w = Want::default();
    for i in 0..n { let (a, b) = if i == at { (named("x"), named("y")) } else { (nth_name(i), nth_name(n - i)) }; declare(&mut s, &mut w, kind, a, b); }
    declare(&mut s, &mut w, 0, b"Other".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// names with letters outside of ASCII
#[no_mangle]
pub extern "C" fn h_letters() {
    let kind = choose(6);
    let l = |v: &mut Vec<u8>| match choose(3) {
        // letters of two and three bytes
        0 => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf) & (b != 0x97) & (b != 0xb7)); v.extend_from_slice(&[0xc3, b]); }
        1 => { let b = byte(); assume((b >= 0x91) & (b <= 0xa1)); v.extend_from_slice(&[0xce, b]); }
        _ => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); v.extend_from_slice(&[0xe4, 0xb8, b]); }
    };
    let mut a = vec![];
    if flag() { a.push(b'x'); }
    l(&mut a);
    if flag() { a.push(b'y'); }
    let mut s = S::new();
    let mut w = Want::default();
    let (a, b) = if flag() { (a, b"Bb".to_vec()) } else { (b"Bb".to_vec(), a) };
    declare(&mut s, &mut w, kind, a, b);
    declare(&mut s, &mut w, 0, b"Other".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
