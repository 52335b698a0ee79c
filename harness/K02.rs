//! Comparisons: equality and order of numbers by value and of text by its characters, after the operands are computed.
use crate::rt::*;
use crate::hx_vmkit::*;
use std::cmp::Ordering;

const OPS: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];
fn want(op: usize, o: Ordering) -> bool {
    match op { 0 => o == Ordering::Equal, 1 => o != Ordering::Equal, 2 => o == Ordering::Less, 3 => o != Ordering::Greater, 4 => o == Ordering::Greater, _ => o != Ordering::Less }
}
/// the comparison as a value, as an assertion, as the condition of a branch and as the exit of a loop
fn decide(setup: &str, expr: &str, w: bool) {
    let mut s = String::from(setup);
    let way = choose(4);
    match way {
        0 => { s.push_str("set_variable(r, "); s.push_str(expr); s.push_str(");\nnew_record_request();\nset_field(T::f, r);\n"); }
        1 => { s.push_str("new_record_request();\nif("); s.push_str(expr); s.push_str(") {\nset_field(T::f, 1);\n} else {\nset_field(T::f, 2);\n}\n"); }
        2 => { s.push_str("set_variable(n, 0);\nloop {\nexit_loop_if("); s.push_str(expr); s.push_str(");\nset_variable(n, n + 1);\nexit_loop_if(n == 2);\n}\nnew_record_request();\nset_field(T::f, n);\n"); }
        _ => { s.push_str("assert("); s.push_str(expr); s.push_str(");\n"); }
    }
    let mut f = file_with(&[("T", &["f"])]);
    add_tests(&mut f, &test_src("a", &s));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    observe(expr.as_bytes());
    if way < 3 {
        let c = column(&te, "T", 0);
        for x in &c { observe(x.as_bytes()); }
        check(c.len() == 1 && c[0] == [["true", "false"], ["1", "2"], ["0", "2"]][way][!w as usize], "a comparison gave the wrong answer");
    }
    check((te.test_state == crate::testing::test::TestState::Pass) == (w || way < 3), "an assertion's verdict is not its comparison's answer");
}

/// numbers of one or two digits, or with a decimal, written out or held by a variable
#[no_mangle]
pub extern "C" fn h_numbers() {
    let op = choose(6);
    let (a, b) = (one_of(b"0129"), one_of(b"0129"));
    let (fa, fb) = (choose(3), choose(3));
    let num = |d: u8, f: usize| -> (String, f64) {
        let v = (d - b'0') as f64;
        let mut s = String::new();
        match f { 0 => { s.push(d as char); (s, v) } 1 => { s.push('1'); s.push(d as char); (s, 10.0 + v) } _ => { s.push(d as char); s.push_str(".5"); (s, v + 0.5) } }
    };
    let ((ta, va), (tb, vb)) = (num(a, fa), num(b, fb));
    let (mut setup, mut e) = (String::new(), String::new());
    let held = flag();
    if held { setup.push_str("set_variable(v, "); setup.push_str(&ta); setup.push_str(");\n"); e.push('v'); } else { e.push_str(&ta); }
    e.push(' '); e.push_str(OPS[op]); e.push(' '); e.push_str(&tb);
    decide(&setup, &e, want(op, va.partial_cmp(&vb).unwrap()));
    witness("end");
}

/// texts of up to n letters each
#[no_mangle]
pub extern "C" fn h_texts() {
    let op = choose(6);
    let letters = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mk = |n: usize| -> Vec<u8> { (0..n).map(|_| one_of(letters)).collect() };
    let (a, b) = (mk(1 + choose(param(0))), mk(1 + choose(param(0))));
    let (mut setup, mut e) = (String::new(), String::new());
    let lit = |t: &[u8], o: &mut String| { o.push('"'); for x in t { o.push(*x as char); } o.push('"'); };
    if flag() { setup.push_str("set_variable(v, "); lit(&a, &mut setup); setup.push_str(");\n"); e.push('v'); } else { lit(&a, &mut e); }
    e.push(' '); e.push_str(OPS[op]); e.push(' '); lit(&b, &mut e);
    let mut o = Ordering::Equal;
    for i in 0..a.len().min(b.len()) { if a[i] != b[i] { o = if a[i] < b[i] { Ordering::Less } else { Ordering::Greater }; break; } }
    if o == Ordering::Equal { o = a.len().cmp(&b.len()); }
    decide(&setup, &e, want(op, o));
    witness("end");
}

/// the operands are whole calculations: arithmetic and concatenation bind tighter than a comparison
#[no_mangle]
pub extern "C" fn h_operands() {
    let op = choose(6);
    let (a, b, c, d) = (one_of(b"0125"), b'3', one_of(b"0124"), b'4');
    let ar = choose(4);
    let n = |x: u8| (x - b'0') as f64;
    let (p, q) = [('+', '-'), ('-', '+'), ('*', '+'), ('+', '*')][ar];
    let ap = |p: char, x: f64, y: f64| match p { '+' => x + y, '-' => x - y, _ => x * y };
    let mut e = String::new();
    let form = choose(3);
    let pair = |x: u8, p: char, y: u8, br: bool, e: &mut String| { if br { e.push('('); } e.push(x as char); e.push(' '); e.push(p); e.push(' '); e.push(y as char); if br { e.push(')'); } };
    pair(a, p, b, form > 0, &mut e);
    if form == 2 { e.push_str(" * 2"); }
    e.push(' '); e.push_str(OPS[op]); e.push(' ');
    if form == 2 { e.push_str("2 * "); }
    pair(c, q, d, form > 0, &mut e);
    let o = ap(p, n(a), n(b)).partial_cmp(&ap(q, n(c), n(d))).unwrap();
    decide("", &e, want(op, o));
    witness("end");
}
#[no_mangle]
pub extern "C" fn h_joined() {
    let op = choose(2);
    let (a, b, c, d) = (one_of(b"ab"), one_of(b"ab"), one_of(b"ab"), one_of(b"ab"));
    let mut e = String::new();
    let lit = |t: u8, o: &mut String| { o.push('"'); o.push(t as char); o.push('"'); };
    lit(a, &mut e); e.push_str(" & "); lit(b, &mut e); e.push(' '); e.push_str(OPS[op]); e.push(' '); lit(c, &mut e); e.push_str(" & "); lit(d, &mut e);
    decide("", &e, (a == c && b == d) == (op == 0));
    witness("end");
}
