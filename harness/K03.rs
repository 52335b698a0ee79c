//! Concatenation and text: every operand appears once, in order, with exactly its characters.
use crate::rt::*;
use crate::hx_vmkit::*;

fn decide(setup: &str, expr: &str, want: &[u8]) {
    let mut s = String::from(setup);
    s.push_str("set_variable(r, "); s.push_str(expr); s.push_str(");\nnew_record_request();\nset_field(T::f, r);\nset_field(T::g, "); s.push_str(expr); s.push_str(");\n");
    let mut f = file_with(&[("T", &["f", "g"]), ("U", &["h"])]);
    add_tests(&mut f, &test_src("a", &s));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    for i in 0..2 {
        let c = column(&te, "T", i);
        for x in &c { observe(x.as_bytes()); }
        check(c.len() == 1, "the steps did not run");
        check(c[0].as_bytes() == want, "the text is not the operands' characters in order");
    }
}
/// a printable character other than the quote
fn printable() -> u8 { let b = byte(); assume(b >= 32 && b < 127 && b != b'"'); b }

/// a literal of any printable characters keeps them all
#[no_mangle]
pub extern "C" fn h_literal() {
    let n = choose(param(0) + 1);
    let mut e = String::from("\"");
    for _ in 0..n { e.push(printable() as char); }
    e.push('"');
    decide("", &e, e.clone().as_bytes());
    witness("end");
}

/// literals, numbers, variables, fields and sums joined in any order
#[no_mangle]
pub extern "C" fn h_join() {
    let n = 2 + choose(param(0));
    let mut setup = String::from("set_variable(v, \"mid\");\nset_variable(w, 42);\ngo_to_layout(\"U\");\nnew_record_request();\nset_field(U::h, \"fld\");\ngo_to_layout(\"T\");\n");
    let mut e = String::new();
    let mut want = vec![b'"'];
    for i in 0..n {
        if i > 0 { e.push_str(if flag() { " & " } else { "&" }); }
        match choose(7) {
            0 => { let b = printable(); e.push('"'); e.push(b as char); e.push('"'); want.push(b); }
            1 => { let b = one_of(b"0123456789"); e.push(b as char); want.push(b); }
            2 => { e.push('v'); want.extend_from_slice(b"mid"); }
            3 => { e.push('w'); want.extend_from_slice(b"42"); }
            4 => { e.push_str("U::h"); want.extend_from_slice(b"fld"); }
            5 => { let b = one_of(b"12345678"); e.push_str("("); e.push(b as char); e.push_str(" + 1)"); want.push(b + 1); }
            _ => { e.push_str("\"\""); }
        }
    }
    want.push(b'"');
    decide(&setup, &e, &want);
    witness("end");
}

/// brackets do not change a concatenation, and a joined text can be joined again
#[no_mangle]
pub extern "C" fn h_group() {
    let (a, b, c) = (printable(), printable(), printable());
    let mut e = String::new();
    let lit = |t: u8, o: &mut String| { o.push('"'); o.push(t as char); o.push('"'); };
    let mut setup = String::new();
    match choose(4) {
        0 => { e.push('('); lit(a, &mut e); e.push_str(" & "); lit(b, &mut e); e.push_str(") & "); lit(c, &mut e); }
        1 => { lit(a, &mut e); e.push_str(" & ("); lit(b, &mut e); e.push_str(" & "); lit(c, &mut e); e.push(')'); }
        2 => { setup.push_str("set_variable(j, "); lit(a, &mut setup); setup.push_str(" & "); lit(b, &mut setup); setup.push_str(");\n"); e.push_str("j & "); lit(c, &mut e); }
        _ => { setup.push_str("set_variable(j, "); lit(b, &mut setup); setup.push_str(" & "); lit(c, &mut setup); setup.push_str(");\n"); lit(a, &mut e); e.push_str(" & j"); }
    }
    decide(&setup, &e, &[b'"', a, b, c, b'"']);
    witness("end");
}

/// arithmetic binds tighter than concatenation
#[no_mangle]
pub extern "C" fn h_sum() {
    let (a, b) = (one_of(b"0123"), one_of(b"0123"));
    let k = printable();
    let mul = flag();
    let mut e = String::new();
    let left = flag();
    if left { e.push('"'); e.push(k as char); e.push_str("\" & "); }
    e.push(a as char); e.push_str(if mul { " * " } else { " + " }); e.push(b as char);
    if !left { e.push_str(" & \""); e.push(k as char); e.push('"'); }
    let (x, y) = (a - b'0', b - b'0');
    let r = b'0' + if mul { x * y } else { x + y };
    decide("", &e, &if left { [b'"', k, r, b'"'] } else { [b'"', r, k, b'"'] });
    witness("end");
}
