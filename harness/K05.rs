//! Field references: a reference reads the named field of the named occurrence's current record, and nothing where there is none.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_dbkit::*;
const M: &str = "a field reference did not read the named field of the named occurrence's current record";

/// every occurrence and field, wherever the occurrences stand, read plainly and inside calculations
#[no_mangle]
pub extern "C" fn h_current() {
    let mut ops = vec![];
    let n = choose(param(0) + 1);
    let k = choose(param(0) + 1);
    ops.push(Op::Layout(0));
    for i in 0..n { ops.push(Op::New); ops.push(Op::Set(0, 0, quoted(one_of(b"ab")))); ops.push(Op::Set(0, 1, vec![b'1' + i as u8])); }
    ops.push(Op::Layout(2));
    for i in 0..k { ops.push(Op::New); ops.push(Op::Set(2, 0, quoted(b'x' + i as u8))); }
    if k > 0 { ops.push(Op::Nav(Go::N(choose(k) as u8))); }
    ops.push(Op::Layout(1));
    if n > 0 { ops.push(Op::Nav(Go::N(choose(n) as u8))); }
    ops.push(Op::Layout(0));
    if flag() { ops.push(Op::Find(0, quoted(b'a'))); ops.push(Op::Nav(Go::First)); }
    ops.push(Op::Layout(choose(3)));
    decide(ops, M);
    witness("end");
}
/// in arithmetic, concatenation, comparison and function arguments, with names of every form
#[no_mangle]
pub extern "C" fn h_in_calc() {
    let d = one_of(b"0123456789");
    let names = ["f", "total", "first_name", "x1", "Min", "PrimaryKey_2"];
    let name = names[choose(names.len())];
    let occ = ["T", "my_table"][choose(2)];
    let e = choose(10);
    let mut f = file_with(&[(occ, &[name, "out"])]);
    let mut fld = String::from(occ); fld.push_str("::"); fld.push_str(name);
    let n = (d - b'0') as i32;
    let (tmpl, want): (&str, String) = match e {
        0 => ("@ + 1", (n + 1).to_string()),
        1 => ("1 + @ * 2", (1 + n * 2).to_string()),
        2 => ("(@ + 1) * @", ((n + 1) * n).to_string()),
        3 => ("@ & \"k\"", { let mut s = String::from("\""); s.push_str(&n.to_string()); s.push_str("k\""); s }),
        4 => ("@==5", (n == 5).to_string()),
        5 => ("3 < @", (3 < n).to_string()),
        6 => ("Min(@, 4) + @", (n.min(4) + n).to_string()),
        7 => ("Abs(@ - 5)-@", ((n - 5).abs() - n).to_string()),
        8 => ("@+@", (n + n).to_string()),
        _ => (" @ ", n.to_string()),
    };
    let mut expr = String::new();
    for ch in tmpl.chars() { if ch == '@' { expr.push_str(&fld); } else { expr.push(ch); } }
    let mut src = String::from("new_record_request();\nset_field("); src.push_str(&fld); src.push_str(", "); src.push(d as char);
    src.push_str(");\nset_field("); src.push_str(occ); src.push_str("::out, "); src.push_str(&expr); src.push_str(");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let c = column(&te, occ, 1);
    observe(c[0].as_bytes());
    check(c[0] == want, M);
    witness("end");
}
/// a text of any printable characters read back through a reference is the same text
#[no_mangle]
pub extern "C" fn h_text() {
    let n = 1 + choose(param(0));
    let mut f = file_with(&[("T", &["a", "b"])]);
    let mut src = String::from("new_record_request();\nset_field(T::a, \"");
    let mut w = String::from("\"");
    for _ in 0..n { let b = byte(); assume(b >= 32 && b < 127 && b != b'"'); src.push(b as char); w.push(b as char); }
    w.push('"');
    src.push_str("\");\nset_field(T::b, T::a);\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    check(column(&te, "T", 1) == vec![w], M);
    witness("end");
}
