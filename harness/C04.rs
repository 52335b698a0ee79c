//! What stands inside a declaration neither ends it nor changes another one.
use crate::rt::*;
use crate::hx_burnkit::*;

/// any character but a quote: a printable one, or one of two or three bytes
fn any(s: &mut S) { match choose(3) { 0 => { s.raw(&[printable_but(b"\"")]); } 1 => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); s.raw(&[0xc3, b]); } _ => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); s.raw(&[0xe2, 0x80, b]); } } }
fn text(s: &mut S, n: usize) { s.raw(b"\""); for _ in 0..n { any(s); } s.raw(b"\""); }
/// a calculation in braces: any characters, texts in it may hold braces
fn calc(s: &mut S, n: usize) {
    s.raw(b"{");
    for _ in 0..n { s.raw(&[printable_but(b"\"}")]); }
    if flag() { text(s, 1); s.raw(b"&x"); }
    s.raw(b"}");
}
/// an option of a field
fn option(s: &mut S, k: usize, n: usize) {
    match k {
        0 => { text(s, n); }
        1 => calc(s, n),
        2 => { s.raw(b"!"); calc(s, n); }
        3 => { s.raw(b"!"); text(s, n); }
        4 => { s.raw(b"foundIn["); let w = name(2); s.raw(&w).raw(b"]"); }
        5 => { s.raw(["Unique", "Required", "Text", "Number", "Date", "Time", "Timestamp", "Container"][choose(8)].as_bytes()); }
        _ => { s.raw(b"other[\"").raw(&[printable_but(b"\"")]).raw(b"\"]"); }
    }
}
/// any options of a field
#[no_mangle]
pub extern "C" fn h_fields() {
    let mut s = S::new();
    let mut w = Want::default();
    s.raw(b"table A:\n  ");
    let f = name(2);
    s.raw(&f).raw(b": ");
    let n = choose(param(0) + 1);
    for i in 0..n { if i > 0 { s.raw(b", "); } option(&mut s, choose(7), param(1)); }
    s.raw(b",\n  last: Text,\nend table;\n");
    w.tables.push(b"A".to_vec());
    declare(&mut s, &mut w, 1, b"O".to_vec(), b"A".to_vec());
    declare(&mut s, &mut w, 0, b"B".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// fields whose names are words of the language
#[no_mangle]
pub extern "C" fn h_field_names() {
    const N: [&str; 17] = ["table", "script", "test", "relationship", "value_list", "table_occurence", "ending", "End", "inf", "table1", "define", "_end", "9abc", "7", "a.b", "end1", "a-end"];
    let mut s = S::new();
    let mut w = Want::default();
    s.raw(b"table A:\n");
    let n = 1 + choose(param(0));
    for _ in 0..n { s.raw(b"  ").raw(N[choose(N.len())].as_bytes()).raw(b": Text, Unique,\n"); }
    s.raw(b"end table;\n");
    w.tables.push(b"A".to_vec());
    declare(&mut s, &mut w, 2, b"L".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// the values of a value list
#[no_mangle]
pub extern "C" fn h_values() {
    let mut s = S::new();
    let mut w = Want::default();
    s.raw(b"value_list L: ");
    let n = choose(param(0) + 1);
    for i in 0..n { if i > 0 { s.raw(b", "); } let k = choose(param(1) + 1); text(&mut s, k); }
    s.raw(b" end value_list;");
    w.lists.push(b"L".to_vec());
    declare(&mut s, &mut w, 3, b"A".to_vec(), b"B".to_vec());
    declare(&mut s, &mut w, 2, b"M".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// the criteria of a relationship
#[no_mangle]
pub extern "C" fn h_criteria() {
    let mut s = S::new();
    let mut w = Want::default();
    s.raw(b"relationship:\n A:B");
    let n = choose(param(0) + 1);
    for _ in 0..n { let (a, b) = (name(2), name(2)); s.raw(b",\n ").raw(&a).raw([" == ", "==", " <= ", " >= ", " < ", " > ", " != ", " O "][choose(8)].as_bytes()).raw(&b); }
    s.raw(b",\nend relationship;\n");
    w.relationships.push((b"A".to_vec(), b"B".to_vec()));
    declare(&mut s, &mut w, 3, b"C".to_vec(), b"D".to_vec());
    w.expect(&s.compile());
    witness("end");
}
/// the text of a script
#[no_mangle]
pub extern "C" fn h_script() {
    let mut s = S::new();
    let mut w = Want::default();
    let test = flag();
    if test { s.raw(b"test T: "); }
    s.raw(b"script: [ define s() { show_custom_dialog(");
    text(&mut s, param(0));
    s.raw(b" & x); } ]");
    if test { s.raw(b", end test;"); w.tests.push((b"T".to_vec(), b"s".to_vec())); } else { w.scripts.push(b"s".to_vec()); }
    s.raw(b"\n");
    declare(&mut s, &mut w, 4, b"a1".to_vec(), b"b1".to_vec());
    declare(&mut s, &mut w, 0, b"B".to_vec(), vec![]);
    w.expect(&s.compile());
    witness("end");
}
/// words of the language inside of declarations
#[no_mangle]
pub extern "C" fn h_words() {
    const N: [&str; 10] = ["table", "script", "test", "relationship", "value_list", "table_occurence", "define", "loop", "if", "assertions"];
    let mut s = S::new();
    let mut w = Want::default();
    let kind = [0usize, 1, 2, 3, 5][choose(5)];
    let word = N[choose(N.len())];
    // a test's script and an occurrence's table are parts of them
    if kind == 5 && word == "script" || kind == 1 && word == "table" || kind == 3 && word == "table_occurence" { reject("a part of the declaration"); }
    let names = ["define", "loop", "if", "assertions"].contains(&word);
    let mut part = |s: &mut S| { match choose(4) { 1 if kind == 3 && names => reject("a second pair"), 0 => {} 1 => { s.raw(word.as_bytes()).raw(b": x,\n"); } 2 => { s.raw(word.as_bytes()).raw(b", "); } _ => { s.raw(word.as_bytes()).raw(b" "); } } };
    s.raw([&b"table A:\n"[..], b"table_occurence A:\n", b"value_list A:\n", b"relationship:\n A:Bb, ", b"", b"test A:\n"][kind]);
    if kind != 3 { part(&mut s); }
    s.raw([&b" key: Text,\n"[..], b" table: Bb,\n", b" \"one\", \n", b" x == y,\n", b"", b" script: [ define Bb() { } ],\n"][kind]);
    part(&mut s);
    s.raw(b"end ").raw(["table", "table_occurence", "value_list", "relationship", "", "test"][kind].as_bytes()).raw(b";\n");
    match kind { 0 => w.tables.push(b"A".to_vec()), 1 => w.occurrences.push((b"A".to_vec(), b"Bb".to_vec())), 2 => w.lists.push(b"A".to_vec()), 3 => w.relationships.push((b"A".to_vec(), b"Bb".to_vec())), _ => w.tests.push((b"A".to_vec(), b"Bb".to_vec())) }
    declare(&mut s, &mut w, choose(6), b"Cc".to_vec(), b"Dd".to_vec());
    w.expect(&s.compile());
    witness("end");
}
/// long content: many fields, options, values or criteria, or one long text
#[no_mangle]
pub extern "C" fn h_long() {
    let n = param(0);
    let mut s = S::new();
    let mut w = Want::default();
    let at = [0, n / 2, n - 1][choose(3)];
    match choose(6) {
        0 => { s.raw(b"table A:\n"); for i in 0..n { let f = if i == at { named("f") } else { nth_name(i) }; s.raw(&f).raw(b": Text,\n"); } s.raw(b"end table;\n"); w.tables.push(b"A".to_vec()); }
        1 => { s.raw(b"table A:\n f: "); for i in 0..n { if i == at { option(&mut s, choose(7), 1); } else { s.raw([&b"Text"[..], b"foundIn[Qq]", b"{ a; \"}\" }", b"\"end table;\"", b"!{x}"][i % 5]); } s.raw(b", "); } s.raw(b"end table;\n"); w.tables.push(b"A".to_vec()); }
        2 => { s.raw(b"value_list A: "); for i in 0..n { if i > 0 { s.raw(b", "); } if i == at { text(&mut s, 1); } else { s.raw(b"\"end ").raw(&nth_name(i)).raw(b";\""); } } s.raw(b" end value_list;\n"); w.lists.push(b"A".to_vec()); }
        3 => { s.raw(b"relationship: A:B"); for i in 0..n { s.raw(b",\n "); if i == at { let x = named("k"); s.raw(&x); } else { s.raw(&nth_name(i)); } s.raw(b" == id"); } s.raw(b",\nend relationship;\n"); w.relationships.push((b"A".to_vec(), b"B".to_vec())); }
        4 => { s.raw(b"value_list A: \""); for i in 0..n { if i == at { any(&mut s); } else { s.raw(&[b" end;{[("[i % 8]]); } } s.raw(b"\" end value_list;\n"); w.lists.push(b"A".to_vec()); }
        _ => { s.raw(b"table A:\n f: {"); for i in 0..n { if i == at { s.raw(&[printable_but(b"\"}{")]); } else { s.raw(&[b" end;([&"[i % 8]]); } } s.raw(b"}, end table;\n"); w.tables.push(b"A".to_vec()); }
    }
    declare(&mut s, &mut w, 2, b"L".to_vec(), vec![]);
    declare(&mut s, &mut w, 4, b"a1".to_vec(), b"b1".to_vec());
    w.expect(&s.compile());
    witness("end");
}
