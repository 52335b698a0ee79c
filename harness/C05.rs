//! Declarations that are not named or not ended as the language requires are refused.
use crate::rt::*;
use crate::hx_burnkit::*;

const KINDS: [&str; 6] = ["table", "table_occurence", "value_list", "relationship", "test", "script"];
fn refused(s: S) -> ! {
    panic_ok(true);
    let f = s.compile();
    panic_ok(false);
    observe(format!("{} {} {} {} {} {}", f.tables.len(), f.table_occurrences.len(), f.value_lists.len(), f.relationships.len(), f.scripts.len(), f.tests.len()).as_bytes());
    fail("a malformed declaration was accepted")
}
fn before(s: &mut S) { if flag() { let mut w = Want::default(); declare(s, &mut w, choose(6), b"Aa".to_vec(), b"Bb".to_vec()); } }
fn after(s: &mut S) { if flag() { let mut w = Want::default(); declare(s, &mut w, choose(6), b"Cc".to_vec(), b"Dd".to_vec()); } }
fn open(s: &mut S, kind: usize) { match kind { 3 => { s.raw(b"relationship: A:B, x == y,"); } k => { s.raw(KINDS[k].as_bytes()).raw(b" N: "); } } }
/// the end of a declaration names another kind, or nothing
#[no_mangle]
pub extern "C" fn h_end() {
    let mut s = S::new();
    before(&mut s);
    let kind = choose(5);
    open(&mut s, kind);
    s.raw(b" end ");
    match choose(3) {
        0 => { let k = choose(6); if k == kind { reject("well formed"); } s.raw(KINDS[k].as_bytes()).raw(b";"); }
        1 => { let n = name(1 + choose(2)); s.raw(&n).raw(b";"); }
        _ => { s.raw(b";"); }
    }
    after(&mut s);
    witness("end");
    refused(s)
}
/// the end of a declaration is not closed
#[no_mangle]
pub extern "C" fn h_semicolon() {
    let mut s = S::new();
    before(&mut s);
    let kind = choose(5);
    open(&mut s, kind);
    s.raw(b" end ").raw(KINDS[kind].as_bytes()).raw([" ", "\n", ", ", ": ", " x;"][choose(5)].as_bytes());
    after(&mut s);
    witness("end");
    refused(s)
}
/// a declaration without a name
#[no_mangle]
pub extern "C" fn h_name() {
    let mut s = S::new();
    before(&mut s);
    let kind = [0usize, 1, 2, 4][choose(4)];
    s.raw(KINDS[kind].as_bytes()).raw(b" ");
    match choose(6) {
        0 => {}
        1 => { s.raw(b"\"").raw(&[printable_but(b"\"")]).raw(b"\""); }
        2 => { s.raw(&[b'0' + below(10) as u8]); }
        3 => { s.raw(&[b'0' + below(10) as u8, letter()]); }
        4 => { s.raw(b"{x}"); }
        _ => { s.raw(KINDS[choose(6)].as_bytes()); }
    }
    s.raw(b": end ").raw(KINDS[kind].as_bytes()).raw(b";\n");
    after(&mut s);
    witness("end");
    refused(s)
}
/// something that is no declaration
#[no_mangle]
pub extern "C" fn h_top() {
    let mut s = S::new();
    before(&mut s);
    match choose(6) {
        0 => { let n = name(2); s.raw(&n).raw(b" "); }
        1 => { s.raw(&[one_of(b":;,=!(){}[]")]); s.raw(b" \n"); }
        2 => { s.raw(b"\"").raw(&[printable_but(b"\"")]).raw(b"\" "); }
        3 => { s.raw(&[b'0' + below(10) as u8]); if flag() { s.raw(&[letter()]); } s.raw(b" "); }
        4 => { s.raw(b"end table; "); }
        _ => { s.raw(b"tables X: end tables; "); }
    }
    after(&mut s);
    witness("end");
    refused(s)
}
/// a relationship, script or test without its colon or bracket
#[no_mangle]
pub extern "C" fn h_marks() {
    let mut s = S::new();
    before(&mut s);
    s.raw([&b"relationship A:B, x == y, end relationship;"[..], b"script [ define s() { } ]", b"script: define s() { } ]", b"test T: script [ define s() { } ], end test;", b"test T: script: define s() { } ], end test;",
        b"test T: script: [ define a() { } define b() { } ], end test;", b"table_occurence T: table X, end table_occurence;", b"table_occurence T: table: \"X\", end table_occurence;", b"relationship;",
        b"relationship: end relationship;", b"relationship: x == y, end relationship;", b"relationship: 1A:B, x == y, end relationship;", b"relationship: A:2B, x == y, end relationship;", b"relationship: A:\"B\", end relationship;", b"relationship: A:, x == y, end relationship;"][choose(15)]);
    after(&mut s);
    witness("end");
    refused(s)
}
/// steps and conditions of a script that are not closed
#[no_mangle]
pub extern "C" fn h_steps() {
    let mut s = S::new();
    let test = flag();
    if test { s.raw(b"test T: "); }
    s.raw(b"script: [ define s() { ");
    if flag() { s.raw(b"if(x) { "); }
    s.raw([&b"set_variable(x, 1) set_variable(y, 2);"[..], b"set_variable(x, 1) }", b"if(x) set_variable(y, 2);", b"if(x); { }", b"if(x) { } elif(y) assert(1);", b"perform_find() loop { }", b"assert(x) if(y) { }", b"loop; { }", b"loop exit_loop_if(x);", b"if(x) { } else assert(1);", b"else { }", b"elif(x) { }", b"loop { } else { }", b"loop { } elif(x) { }", b"if(x) { } else { } else { }", b"if(x) { } else { } elif(y) { }", b"if(x) { } } define t() { ", b"assert(x); } assert(y); ", b"if(x) { assert(x); else { }", b"} x"][choose(20)]);
    s.raw(b" } } ]");
    if test { s.raw(b", end test;"); }
    witness("end");
    refused(s)
}
/// a source cut off before its last declaration ends
#[no_mangle]
pub extern "C" fn h_cut() {
    let mut s = S::new();
    let mut w = Want::default();
    before(&mut s);
    let kind = choose(6);
    declare(&mut s, &mut w, kind, b"Ee".to_vec(), b"Ff".to_vec());
    // everything from its first word to its last mark is needed
    let last = s.t.iter().rposition(|c| *c == b';' || *c == b']').unwrap();
    let word: &[u8] = [&b"table Ee"[..], b"table_occurence Ee", b"value_list Ee", b"relationship:", b"script:", b"test Ee"][kind];
    let first = (0..s.t.len() - word.len()).rev().find(|i| &s.t[*i..*i + word.len()] == word).unwrap();
    let at = choose(last - first + 1);
    if at == 0 { reject("nothing of it left"); }
    s.t.truncate(first + at);
    witness("end");
    refused(s)
}
/// a script cut off inside its block
#[no_mangle]
pub extern "C" fn h_script_cut() {
    let text = b"define s(x) { set_variable(x, 1); loop { exit_loop_if(x); } if(x) { assert(x); } else { perform_find(); } }";
    let mut s = S::new();
    let test = flag();
    if test { s.raw(b"test T: "); }
    s.raw(b"script: [ ");
    s.raw(&text[..1 + choose(text.len() - 1)]);
    s.raw(b" ]");
    if test { s.raw(b", end test;"); }
    after(&mut s);
    witness("end");
    refused(s)
}
