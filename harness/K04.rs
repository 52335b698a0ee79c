//! Functions: a call takes all its arguments, each a whole calculation, and stands for its value wherever an operand may stand.
use crate::rt::*;
use crate::hx_vmkit::*;

fn decide(setup: &str, expr: &str, want: &str) {
    let mut s = String::from(setup);
    s.push_str("set_variable(r, "); s.push_str(expr); s.push_str(");\nnew_record_request();\nset_field(T::f, r);\nset_field(T::g, "); s.push_str(expr); s.push_str(");\n");
    let mut f = file_with(&[("T", &["f", "g"])]);
    add_tests(&mut f, &test_src("a", &s));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    observe(expr.as_bytes());
    for i in 0..2 {
        let c = column(&te, "T", i);
        for x in &c { observe(x.as_bytes()); }
        check(c.len() == 1 && c[0] == want, "a function call did not stand for its value");
    }
}
fn dig() -> u8 { one_of(b"0359") }
fn n(d: u8) -> f64 { (d - b'0') as f64 }
fn put(o: &mut String, parts: &[&str]) { for p in parts { o.push_str(p); } }
fn st(d: u8) -> String { let mut s = String::new(); s.push(d as char); s }

/// an argument: its text and value
fn arg(depth: usize) -> (String, f64) {
    match choose(if depth == 0 { 3 } else { 6 }) {
        0 => { let d = dig(); (st(d), n(d)) }
        1 => { let d = dig(); (st(d) + " + 4", n(d) + 4.0) }
        2 => { let d = dig(); ("(2 * (".to_string() + &st(d) + " - 1))", 2.0 * (n(d) - 1.0)) }
        3 => { let (a, x) = arg(depth - 1); ("Abs(".to_string() + &a + " - 6)", (x - 6.0).abs()) }
        4 => { let (a, x) = arg(depth - 1); ("Min(".to_string() + &a + ", 5)", if x < 5.0 { x } else { 5.0 }) }
        _ => { let (a, x) = arg(depth - 1); ("3 * Min(7, ".to_string() + &a + ")", 3.0 * if x < 7.0 { x } else { 7.0 }) }
    }
}
/// the minimum of any number of arguments, each any calculation
#[no_mangle]
pub extern "C" fn h_min() {
    let k = 1 + choose(param(0));
    let (mut e, mut m) = (String::from("Min("), f64::INFINITY);
    for i in 0..k {
        let (a, x) = if i == 0 { arg(param(1)) } else { let d = one_of(b"0123456789"); (if flag() { st(d) } else { "1".to_string() + &st(d) + ".5 - 1" }, f64::NAN) };
        // values of the simple arguments from their own text
        let x = if x.is_nan() { let b = a.as_bytes(); if b.len() == 1 { n(b[0]) } else { 9.5 + n(b[1]) } } else { x };
        if i > 0 { e.push_str(if i % 2 == 1 { ", " } else { "," }); }
        e.push_str(&a);
        if x < m { m = x; }
    }
    e.push(')');
    decide("", &e, &m.to_string());
    witness("end");
}
/// a call as an operand, on either side of any operator
#[no_mangle]
pub extern "C" fn h_operand() {
    let (a, b) = (one_of(b"0123456789"), dig());
    let (call, x) = match choose(3) { 0 => ("Abs(".to_string() + &st(a) + " - 5)", (n(a) - 5.0).abs()), 1 => ("Min(8, ".to_string() + &st(a) + ")", if n(a) < 8.0 { n(a) } else { 8.0 }), _ => ("Min(Abs(".to_string() + &st(a) + " - 7), 3)", { let v = (n(a) - 7.0).abs(); if v < 3.0 { v } else { 3.0 } }) };
    let y = n(b);
    let (e, v) = match choose(9) {
        0 => (call + " + " + &st(b), x + y),
        1 => (st(b) + " - " + &call, y - x),
        2 => (call + " * 2 + " + &st(b), x * 2.0 + y),
        3 => (st(b) + " + 2 * " + &call, y + 2.0 * x),
        4 => ("(".to_string() + &call + " + 1) * " + &st(b), (x + 1.0) * y),
        5 => (call.clone() + " - " + &call + " - " + &st(b), x - x - y),
        6 => (st(b) + " * (" + &call + ")", y * x),
        7 => (call.clone() + " * " + &call, x * x),
        _ => (call, x),
    };
    decide("", &e, &v.to_string());
    witness("end");
}
/// the smallest of several texts, and the number of a character
#[no_mangle]
pub extern "C" fn h_text() {
    let l = b"abcdefghijklmnopqrstuvwxyz";
    let (a, b, c) = (one_of(l), one_of(l), one_of(l));
    let mut e = String::new();
    let q = |d: u8| { let mut s = String::from("\""); s.push(d as char); s.push('"'); s };
    if flag() {
        let m = if a <= b && a <= c { a } else if b <= c { b } else { c };
        put(&mut e, &["Min(", &q(a), ", ", &q(b), ", ", &q(c), ")"]);
        decide("", &e, &q(m));
    } else {
        let d = one_of(b"456789");
        put(&mut e, &["Char(", &st(d), "5) & ", &q(a)]);
        let ch = (d - b'0') * 10 + 5;
        let mut w = String::from("\""); w.push(ch as char); w.push(a as char); w.push('"');
        decide("", &e, &w);
    }
    witness("end");
}
/// a text argument may contain brackets, commas and quotes' neighbours; the account name is the administrator's
#[no_mangle]
pub extern "C" fn h_marks() {
    let (a, b) = (byte(), one_of(b"xyz"));
    assume(a >= 32 && a < 127 && a != b'"');
    let mut e = String::new();
    let mut w = String::from("\"");
    match choose(3) {
        0 => { put(&mut e, &["Min(\"z", &st(a), "z\", \"z", &st(a), "z\") & \"", &st(b), "\""]); w.push('z'); w.push(a as char); w.push('z'); w.push(b as char); }
        1 => { put(&mut e, &["Get(AccountName) & \"", &st(a), "\""]); w.push_str("Admin"); w.push(a as char); }
        _ => { put(&mut e, &["\"", &st(a), "\" & Get(AccountName) & \"", &st(b), "\""]); w.push(a as char); w.push_str("Admin"); w.push(b as char); }
    }
    w.push('"');
    decide("", &e, &w);
    witness("end");
}
