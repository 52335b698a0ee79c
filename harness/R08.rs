//! Clean-up between tests: no record, found set or position survives, so a later run starts like a first one.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_dbkit::*;
use crate::testing::test::TestEnvironment;
const M: &str = "records, found sets or positions survived the clean-up between tests";

#[no_mangle]
pub extern "C" fn h_clean() {
    let mut ops = vec![];
    let n = choose(param(0) + 1);
    let vals: Vec<u8> = (0..n).map(|_| one_of(b"ab")).collect();
    fill(&mut ops, choose(2), &vals);
    match choose(4) { 0 => {} 1 => ops.push(Op::Find(0, quoted(b'a'))), 2 => { ops.push(Op::Nav(Go::First)); fill(&mut ops, 2, b"x"); } _ => { fill(&mut ops, 2, b"xy"); ops.push(Op::Find(0, quoted(b'y'))); } }
    let mut src = String::new();
    text(&ops, &mut src);
    let mut f = db_file();
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests_with_cleanup();
    for (t, k) in [("T", 2), ("U", 1), ("L", 1)] { for i in 0..k { check(column(&te, t, i).is_empty(), M); } }
    // a second program on the cleaned records, and on new ones
    let mut second = vec![];
    let start = choose(3);
    second.push(Op::Layout(start));
    match choose(4) {
        0 => second.push(Op::Log(start, 0)),
        1 => { second.push(Op::New); second.push(Op::Nav(Go::First)); second.push(Op::Set(start, 0, quoted(one_of(b"pq")))); }
        2 => { second.push(Op::ShowAll); second.push(Op::Nav(Go::Last)); second.push(Op::Log(start, 0)); second.push(Op::New); second.push(Op::New); second.push(Op::Set(start, 0, quoted(b'k'))); second.push(Op::Find(0, quoted(b'k'))); }
        _ => { second.push(Op::New); second.push(Op::Layout((start + 1) % 3)); second.push(Op::New); second.push(Op::Nav(Go::Prev)); }
    }
    let mut m = Model::new();
    for x in &second { m.apply(x); }
    read_out(&m, &mut second);
    let mut src2 = String::new();
    text(&second, &mut src2);
    let mut f2 = db_file();
    add_tests(&mut f2, &test_src("b", &src2));
    let finish = |te: &mut TestEnvironment| -> Vec<String> {
        te.load_test(f2.tests[0].clone());
        while te.test_state == crate::testing::test::TestState::Pass && !te.instruction_ptr.is_empty() { te.step(); }
        column(te, "L", 0)
    };
    let got = finish(&mut te);
    let mut fresh = TestEnvironment::new(&f);
    fresh.generate_test_environment();
    let want = finish(&mut fresh);
    for g in &got { observe(g.as_bytes()); }
    check(got == want, M);
    for (t, k) in [("T", 2), ("U", 1)] { for i in 0..k { check(column(&te, t, i) == column(&fresh, t, i), M); } }
    witness("end");
}
