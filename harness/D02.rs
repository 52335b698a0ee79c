//! Stored calculations are shown as their text.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::hx_B04::step;

const FIXED: &[(&[u8], &str)] = &[(&[4], "("), (&[5], ")"), (&[0x2d], "Abs"), (&[0x9b], "Get"), (&[0x9c, 0x1d], "CurrentTime"), (&[0x9c, 0x20], "AccountName"), (&[0x9c, 0x49], "DocumentsPath"),
    (&[0x9c, 0x5d], "DocumentsPathListing"), (&[0x9d], "Acos"), (&[0xfb, 3], "Char"), (&[0x25], "+"), (&[0x26], "-"), (&[0x27], "*"), (&[0x28], "/"), (&[0x41], "<"), (&[0x43], "<="),
    (&[0x44], "=="), (&[0x46], "!="), (&[0x47], ">="), (&[0x49], ">"), (&[0x50], "&"), (&[0x0c], " ")];
fn dec(n: u8, o: &mut Vec<u8>) { if n >= 100 { o.push(b'0' + n / 100); } if n >= 10 { o.push(b'0' + n / 10 % 10); } o.push(b'0' + n % 10); }
/// a character of one or two bytes
fn character(o: &mut Vec<u8>) { if flag() { let (a, b) = (byte(), byte()); assume(a >= 0xc3 && a <= 0xdf && b >= 0x80 && b <= 0xbf); o.push(a); o.push(b); } else { o.push(printable()); } }
/// one element of a calculation: its code and its text
fn element(kind: usize, len: usize, code: &mut Vec<u8>, t: &mut Vec<u8>) {
    match kind {
        0 => { let n = byte(); code.push(0x10); for i in 0..19 { code.push(if i == 8 { n } else if i == 7 || i == 9 { let b = byte(); assume(b < 128); b } else { (i as u8) * 7 }); } dec(split(n as usize) as u8, t); }
        1 | 2 => {
            let mut s = vec![];
            for _ in 0..choose(len + 1) { character(&mut s); }
            code.push(if kind == 1 { 0x13 } else { 0x1a }); code.push(s.len() as u8); code.extend(enc(&s));
            if kind == 1 { t.push(b'"'); }
            t.extend_from_slice(&s);
            if kind == 1 { t.push(b'"'); }
        }
        k => { code.extend_from_slice(FIXED[k - 3].0); t.extend_from_slice(FIXED[k - 3].1.as_bytes()); }
    }
}
/// the text shown for a calculation that is the result of a script, or the value of a variable
fn shown(code: &[u8], variable: bool) -> String {
    let mut w = W::new();
    w.path(&[17, 1, 1, 1]); w.kv(16, &enc(b"s")); w.up(4);
    w.path(&[17, 5, 1]);
    w.kv(4, &step(if variable { 141 } else { 103 }, 1));
    w.path(&[5, 1, if variable { 129 } else { 128 }, 5]);
    w.kv(5, code);
    w.up(7);
    let f = decompile(&simple(vec![w.b]));
    let s = match f.scripts.get(&1) { Some(s) => s, None => fail("the script of the file is missing") };
    check(s.instructions.len() == 1 && s.instructions[0].switches.len() == 1, "a step shows another number of calculations");
    s.instructions[0].switches[0].clone()
}
fn run(n: usize, kinds: &[usize], len: usize, variable: bool) {
    let (mut code, mut t) = (vec![], vec![]);
    for _ in 0..n { let k = kinds[choose(kinds.len())]; element(k, len, &mut code, &mut t); }
    let g = shown(&code, variable);
    observe(g.as_bytes());
    check(g.as_bytes() == &t[..], "a stored calculation is shown as another text");
    witness("end");
}
/// every element, in every order
#[no_mangle]
pub extern "C" fn h_sequence() {
    let all: Vec<usize> = (1..3 + FIXED.len()).collect();
    run(param(0), &all, 1, false);
}
/// numbers, texts and variables of any value
#[no_mangle]
pub extern "C" fn h_values() { let v = flag(); run(1, &[0, 1, 2], param(0), v); }
/// operands with operators and brackets between them
#[no_mangle]
pub extern "C" fn h_mixed() {
    let (mut code, mut t) = (vec![], vec![]);
    let ops: Vec<usize> = (13..24).collect();
    let n = param(0);
    for i in 0..n {
        if i > 0 { let k = ops[choose(ops.len())]; element(k, 0, &mut code, &mut t); }
        let open = flag();
        if open { element(3, 0, &mut code, &mut t); }
        let k = choose(2);
        element(1 + k, 1, &mut code, &mut t);
        if open { element(4, 0, &mut code, &mut t); }
    }
    let g = shown(&code, true);
    check(g.as_bytes() == &t[..], "a stored calculation is shown as another text");
    witness("end");
}
/// long calculations: many elements of one kind or all, with one of any kind among them
#[no_mangle]
pub extern "C" fn h_large() {
    let n = param(0);
    let (mut code, mut t) = (vec![], vec![]);
    let how = choose(4);
    let at = [0, n / 2, n - 1][choose(3)];
    let kinds = [0usize, 1, 2, 3, 10, 12, 13, 23];
    let mut i = 0;
    // a stored calculation has no more than 255 bytes
    while i < n && code.len() < 225 {
        if i == at { element(kinds[choose(kinds.len())], 1, &mut code, &mut t); }
        else { match how {
            0 => element(3 + i % FIXED.len(), 0, &mut code, &mut t),
            1 => { let name: Vec<u8> = (0..1 + i % 40).map(|j| b'a' + (j % 26) as u8).collect(); code.push(if i % 2 == 0 { 0x13 } else { 0x1a }); code.push(name.len() as u8); code.extend(enc(&name)); let q: &[u8] = if i % 2 == 0 { b"\"" } else { b"" }; t.extend_from_slice(q); t.extend_from_slice(&name); t.extend_from_slice(q); }
            2 => element(if i < n / 2 { 3 } else { 4 }, 0, &mut code, &mut t),
            _ => { if i % 2 == 1 { element(13, 0, &mut code, &mut t); } else { code.push(0x10); code.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 9, (i * 3) as u8, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0]); dec((i * 3) as u8, &mut t); } }
        } }
        i += 1;
    }
    if code.len() > 255 { reject("harness: longer than a value"); }
    let g = shown(&code, flag());
    observe(g.as_bytes());
    check(g.as_bytes() == &t[..], "a stored calculation is shown as another text");
    witness("end");
}
/// one long text or name
#[no_mangle]
pub extern "C" fn h_one() {
    let n = [63usize, 64, 127, 128, 129, 200, 250][choose(7)];
    let at = [0, n / 2, n - 1][choose(3)];
    let mut s: Vec<u8> = (0..n).map(|i| b'A' + (i * 7 % 58) as u8).collect();
    s[at] = printable();
    let quoted = flag();
    let mut code = vec![if quoted { 0x13 } else { 0x1a }, n as u8];
    code.extend(enc(&s));
    if quoted { s.insert(0, b'"'); s.push(b'"'); }
    let g = shown(&code, flag());
    check(g.as_bytes() == &s[..], "a stored calculation is shown as another text");
    witness("end");
}
