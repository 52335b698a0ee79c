//! Record navigation: first, last, next, previous and a number move within the shown occurrence's found set and never leave it.
use crate::rt::*;
use crate::hx_dbkit::*;
const M: &str = "navigation did not land on the record it asks for";
fn any_go(n: usize) -> Go { match choose(5) { 0 => Go::First, 1 => Go::Last, 2 => Go::Next, 3 => Go::Prev, _ => Go::N(choose(n) as u8) } }

/// any moves over any number of records, none included
#[no_mangle]
pub extern "C" fn h_moves() {
    let n = choose(param(0) + 1);
    let mut ops = vec![];
    let o = choose(3);
    let vals: Vec<u8> = (0..n).map(|i| b'a' + i as u8).collect();
    fill(&mut ops, o, &vals);
    let logged = flag();
    for _ in 0..param(1) { let g = any_go(n + 2); ops.push(Op::Nav(g)); if logged { ops.push(Op::Log(o, 0)); } }
    decide(ops, M);
    witness("end");
}
/// moves within a found set that is any subset of the records
#[no_mangle]
pub extern "C" fn h_found() {
    let n = 1 + choose(param(0));
    let vals: Vec<u8> = (0..n).map(|_| one_of(b"xy")).collect();
    let mut ops = vec![Op::Layout(0)];
    for (i, v) in vals.iter().enumerate() { ops.push(Op::New); ops.push(Op::Set(0, 0, quoted(b'a' + i as u8))); ops.push(Op::Set(0, 1, quoted(*v))); }
    ops.push(Op::Find(1, quoted(b'x')));
    ops.push(Op::Nav(if flag() { Go::First } else { Go::Last }));
    let logged = flag();
    for _ in 0..param(1) { let g = any_go(n + 1); ops.push(Op::Nav(g)); if logged { ops.push(Op::Log(0, 0)); } }
    decide(ops, M);
    witness("end");
}
/// each occurrence moves on its own
#[no_mangle]
pub extern "C" fn h_apart() {
    let mut ops = vec![];
    fill(&mut ops, 0, b"abc");
    fill(&mut ops, 2, b"de");
    for _ in 0..param(0) { ops.push(Op::Layout(choose(3))); let g = any_go(3); ops.push(Op::Nav(g)); }
    decide(ops, M);
    witness("end");
}
/// the number and the direction may be held by a variable
#[no_mangle]
pub extern "C" fn h_computed() {
    use crate::hx_vmkit::*;
    let n = 1 + choose(4);
    let k = below(6);
    let mut src = String::new();
    for i in 0..n { log_text(b'a' + i as u8, &mut src); }
    src.push_str("set_variable(k, "); src.push((b'0' + k as u8) as char); src.push_str(");\nset_variable(d, \"previ\" & \"ous\");\n");
    let step = choose(3);
    src.push_str(match step { 0 => "go_to_record(k);\n", 1 => "go_to_record(k + 1);\n", _ => "go_to_record(\"last\");\ngo_to_record(d);\n" });
    src.push_str("set_field(T::f, \"z\");\n");
    let mut f = file_with(&[("T", &["f"])]);
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let at = match step { 0 => k, 1 => k + 1, _ => if n >= 2 { n - 2 } else { 0 } };
    let at = if at < n { at } else { n - 1 };
    let want: Vec<u8> = (0..n).map(|i| if i == at { b'z' } else { b'a' + i as u8 }).collect();
    check_log(&te, &want, M);
    witness("end");
}
