//! Setting a field: exactly that field of the named occurrence's current record takes the value; nothing else changes.
use crate::rt::*;
use crate::hx_dbkit::*;
const M: &str = "setting a field did not change exactly the one value";

#[no_mangle]
pub extern "C" fn h_local() {
    let n = 1 + choose(param(0));
    let vals: Vec<u8> = (0..n).map(|i| b'a' + i as u8).collect();
    let mut ops = vec![];
    fill(&mut ops, 0, &vals);
    fill(&mut ops, 2, b"xy");
    // leave the three occurrences on records of their own
    ops.push(Op::Layout(0)); ops.push(Op::Nav(Go::N(choose(n) as u8)));
    ops.push(Op::Layout(1)); ops.push(Op::Nav(Go::N(choose(n) as u8)));
    ops.push(Op::Layout(2)); if flag() { ops.push(Op::Nav(Go::First)); }
    ops.push(Op::Layout(choose(3)));
    for _ in 0..param(1) {
        let o = choose(3);
        let f = choose(FIELDS[OCC_TABLE[o]].len());
        ops.push(Op::Set(o, f, quoted(one_of(b"pqrstuvwABC .,;:+-*/"))));
    }
    decide(ops, M);
    witness("end");
}
/// within a found set the found record is the one that changes
#[no_mangle]
pub extern "C" fn h_found() {
    let n = 1 + choose(param(0));
    let mut ops = vec![Op::Layout(0)];
    for i in 0..n { ops.push(Op::New); ops.push(Op::Set(0, 0, quoted(b'a' + i as u8))); ops.push(Op::Set(0, 1, quoted(one_of(b"xy")))); }
    ops.push(Op::Find(1, quoted(b'x')));
    ops.push(Op::Nav(Go::N(choose(n) as u8)));
    ops.push(Op::Set(0, 0, quoted(one_of(b"pqr"))));
    if flag() { ops.push(Op::Nav(Go::Next)); ops.push(Op::Set(0, 1, vec![one_of(b"0123456789")])); }
    decide(ops, M);
    witness("end");
}
/// a value computed from the record's own fields and from other occurrences
#[no_mangle]
pub extern "C" fn h_computed() {
    use crate::hx_vmkit::*;
    let (a, b) = (one_of(b"0123456"), one_of(b"0123"));
    let e = choose(4);
    let mut f = file_with(&[("T", &["f", "g"]), ("U", &["h"])]);
    let mut src = String::from("go_to_layout(\"U\");\nnew_record_request();\nset_field(U::h, ");
    src.push(b as char);
    src.push_str(");\ngo_to_layout(\"T\");\nnew_record_request();\nset_field(T::f, "); src.push(a as char);
    src.push_str(");\nset_field(T::g, "); src.push_str(["T::f + U::h", "T::f", "T::f + T::f - T::f", "U::h"][e]); src.push_str(");\n");
    src.push_str("set_field(T::f, T::f + 1);\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let (x, y) = (a - b'0', b - b'0');
    let want = [x + y, x, x, y][e] + b'0';
    check(column(&te, "T", 1) == vec![string(vec![want])], M);
    check(column(&te, "T", 0) == vec![string(vec![a + 1])], M);
    check(column(&te, "U", 0) == vec![string(vec![b])], M);
    witness("end");
}
/// the field is the one of exactly the given name, in the occurrence of exactly the given name
#[no_mangle]
pub extern "C" fn h_names() {
    use crate::hx_vmkit::*;
    let fields = ["f", "F", "f_1", "f1", "first_name", "firstname", "Set_Field", "_f"];
    let occs = ["T", "t", "T_2", "Table"];
    let (i, o) = (choose(fields.len()), choose(occs.len()));
    let v = one_of(b"0123456789");
    let mut f = crate::file::FmpFile::new();
    for (k, n) in occs.iter().enumerate() {
        let g = file_with(&[(n, &fields)]);
        f.tables.insert(k + 1, g.tables[&1].clone());
        let mut x = g.table_occurrences[&1].clone();
        x.table_actual = k as u16 + 1;
        f.table_occurrences.insert(k + 1, x);
        let mut l = g.layouts[&1].clone();
        l.table_occurrence = k + 1;
        f.layouts.insert(k + 1, l);
    }
    let mut src = String::new();
    for n in occs { src.push_str("go_to_layout(\""); src.push_str(n); src.push_str("\");\nnew_record_request();\n"); }
    src.push_str("set_field("); src.push_str(occs[o]); src.push_str("::"); src.push_str(fields[i]); src.push_str(", "); src.push(v as char); src.push_str(");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    for (k, n) in occs.iter().enumerate() {
        for j in 0..fields.len() {
            let c = column(&te, n, j);
            for x in &c { observe(x.as_bytes()); }
            check(c == vec![if k == o && j == i { string(vec![v]) } else { String::new() }], M);
        }
    }
    witness("end");
}
