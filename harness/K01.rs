//! Arithmetic: multiplication and division before addition and subtraction, left to right, brackets first.
use crate::rt::*;
use crate::hx_vmkit::*;

/// ordinary arithmetic over a flat list: numbers (or bracketed lists) separated by operators
enum T { Num(f64), Sub(Vec<T>), Op(u8) }
fn one(t: &T) -> f64 { match t { T::Num(n) => *n, T::Sub(s) => value(s), T::Op(_) => unreachable!() } }
fn op(t: &T) -> u8 { match t { T::Op(o) => *o, _ => unreachable!() } }
fn value(l: &[T]) -> f64 {
    // first the products, then their sum, both from the left
    let (mut terms, mut signs) = (vec![one(&l[0])], vec![]);
    let mut i = 1;
    while i < l.len() {
        let (o, r) = (op(&l[i]), one(&l[i + 1]));
        let k = terms.len() - 1;
        match o { b'*' => terms[k] = terms[k] * r, b'/' => terms[k] = terms[k] / r, _ => { signs.push(o); terms.push(r); } }
        i += 2;
    }
    let mut total = terms[0];
    for (s, t) in signs.iter().zip(&terms[1..]) { total = if *s == b'+' { total + *t } else { total - *t }; }
    total
}
struct Sp(usize);
impl Sp { fn put(&self, o: &mut String) { match self.0 { 0 => o.push(' '), 1 => {} _ => o.push_str("\n  ") } } }
fn any_op() -> u8 { [b'+', b'-', b'*', b'/'][choose(4)] }
/// a number: a digit, two digits or a decimal, or a variable holding one
fn operand(d: u8, form: usize, o: &mut String) -> T {
    match form {
        0 => { o.push(d as char); T::Num((d - b'0') as f64) }
        1 => { o.push('1'); o.push(d as char); T::Num(10.0 + (d - b'0') as f64) }
        2 => { o.push(d as char); o.push_str(".5"); T::Num((d - b'0') as f64 + 0.5) }
        _ => { o.push('v'); T::Num(0.0) }
    }
}
fn decide(setup: &str, expr: &str, want: f64) {
    let mut s = String::from(setup);
    s.push_str("set_variable(r, "); s.push_str(expr); s.push_str(");\nnew_record_request();\nset_field(T::f, r);\nset_field(T::g, "); s.push_str(expr); s.push_str(");\n");
    let mut f = file_with(&[("T", &["f", "g"])]);
    add_tests(&mut f, &test_src("a", &s));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    observe(expr.as_bytes());
    let w = want.to_string();
    for i in 0..2 {
        let c = column(&te, "T", i);
        for x in &c { observe(x.as_bytes()); }
        check(c.len() == 1 && c[0] == w, "the calculation did not give the value of ordinary arithmetic");
    }
}

/// n operands, any operators, one bracketed span anywhere or none
#[no_mangle]
pub extern "C" fn h_flat() {
    let (n, spans) = (param(0), param(1) == 1);
    let sp = Sp(if param(2) == 1 { choose(3) } else { 0 });
    // one bracketed span [i, j] of at least two operands
    let (mut i, mut j) = (n, n);
    if spans { i = choose(n - 1); j = i + 1 + choose(n - 1 - i); assume(!(i == 0 && j == n - 1)); }
    let sym = choose(n);
    let mut o = String::new();
    let (mut outer, mut inner) = (vec![], vec![]);
    for k in 0..n {
        if k > 0 {
            let p = any_op();
            sp.put(&mut o); o.push(p as char); sp.put(&mut o);
            if k > i && k <= j { inner.push(T::Op(p)); } else { outer.push(T::Op(p)); }
        }
        if k == i { o.push('('); }
        let d = if k == sym { one_of(b"0159") } else { [b'7', b'3', b'8', b'4', b'6'][k] };
        let t = operand(d, 0, &mut o);
        if k >= i && k <= j { inner.push(t); } else { outer.push(t); }
        if k == j { o.push(')'); outer.push(T::Sub(std::mem::take(&mut inner))); }
    }
    decide("", &o, value(&outer));
    witness("end");
}

/// nested brackets: every operand of an operation may itself be a bracketed operation
#[no_mangle]
pub extern "C" fn h_tree() {
    fn node(depth: usize, leaf: &mut usize, o: &mut String) -> T {
        if depth == 0 || !flag() { let d = [b'2', b'9', b'4', b'7', b'3', b'8', b'5', b'6'][*leaf % 8]; *leaf += 1; return operand(d, 0, o); }
        o.push('(');
        let a = node(depth - 1, leaf, o);
        let p = any_op();
        o.push(' '); o.push(p as char); o.push(' ');
        let b = node(depth - 1, leaf, o);
        o.push(')');
        T::Sub(vec![a, T::Op(p), b])
    }
    let (mut o, mut leaf) = (String::new(), 0);
    let a = node(param(0), &mut leaf, &mut o);
    let p = any_op();
    o.push(' '); o.push(p as char); o.push(' ');
    let b = node(param(0), &mut leaf, &mut o);
    decide("", &o, value(&[a, T::Op(p), b]));
    witness("end");
}

/// operands of every form: digits, longer numbers, decimals, variables, with any value
#[no_mangle]
pub extern "C" fn h_values() {
    let (a, b) = (one_of(b"0123456789"), one_of(b"0123456789"));
    let p = any_op();
    let (fa, fb) = (choose(3), choose(4));
    let mut o = String::new();
    let x = operand(a, fa, &mut o);
    o.push(' '); o.push(p as char); o.push(' ');
    let (mut setup, mut y) = (String::new(), T::Num(0.0));
    if fb == 3 {
        setup.push_str("set_variable(v, "); setup.push(b as char); setup.push_str(");\n");
        o.push('v'); y = T::Num((b - b'0') as f64);
    } else { y = operand(b, fb, &mut o); }
    decide(&setup, &o, value(&[x, T::Op(p), y]));
    witness("end");
}
