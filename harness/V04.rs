//! Verdicts and isolation: every test is reported once, in order, as failed exactly when one of its assertions is false, and no
//! test sees anything an earlier test did to the interpreter or (when records are cleaned up between tests) to the records.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_vmprog::*;
use crate::testing::test::{TestEnvironment, TestState};

/// one test: any of its assertions false, at any place
#[no_mangle]
pub extern "C" fn h_verdict() {
    let d: Vec<u8> = (0..3).map(|_| one_of(b"0123")).collect();
    let in_loop = choose(3);
    let asrt = |i: usize| S::Assert(if i % 2 == 0 { C::Eq(E::Var(b'p' + i as u8), E::Num(1)) } else { C::Ne(E::Var(b'p' + i as u8), E::Num(2)) });
    let mut prog: Vec<S> = (0..3).map(|i| S::Set(b'p' + i, E::Num(d[i as usize] - b'0'))).collect();
    prog.push(S::Log(b'a')); prog.push(asrt(0)); prog.push(S::Log(b'b'));
    match in_loop {
        0 => { prog.push(asrt(1)); }
        1 => { prog.push(S::Loop(vec![asrt(1), S::ExitIf(C::Eq(E::Var(b'q'), E::Num(1))), S::Log(b'c'), S::Set(b'q', E::Num(1))])); }
        _ => { prog.push(S::If(vec![(C::Eq(E::Var(b'p'), E::Var(b'q')), vec![S::Log(b'd')])], Some(vec![asrt(1), S::Log(b'e')]))); }
    }
    prog.push(asrt(2)); prog.push(S::Log(b'f'));
    decide(&[], &prog, "steps after a false assertion ran, or steps before it did not");
    witness("end");
}

/// several tests: one verdict line each, in order, each naming its test
#[no_mangle]
pub extern "C" fn h_report() {
    let n = 1 + choose(param(0));
    let clean = flag();
    let all = ["first", "First", "second"];
    let mut names = vec![];
    let mut text = String::new();
    let mut f = file_with(&[("T", &["f"])]);
    let mut want = vec![];
    for i in 0..n {
        let d = one_of(b"0123456789");
        let mut s = String::from("set_variable(x, "); s.push(d as char); s.push_str(");\nassert(x != 7);\n");
        names.push(all[choose(3)]);
        text.push_str(&test_src(names[i], &s));
        want.push(d != b'7');
    }
    add_tests(&mut f, &text);
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    color_print::take();
    if clean { te.run_tests_with_cleanup(); } else { te.run_tests(); }
    let lines: Vec<String> = color_print::take().into_iter().filter(|l| l.starts_with("Test ")).collect();
    for l in &lines { observe(l.as_bytes()); }
    check(lines.len() == n, "not one verdict per test");
    for i in 0..n {
        check(lines[i].split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == names[i]), "the verdict line does not name its test");
        check(lines[i].contains("Success") == want[i] && lines[i].contains("Fail") != want[i], "a test is reported with the wrong verdict");
    }
    check((te.test_state == TestState::Pass) == want[n - 1], "the state left behind is not the last test's verdict");
    witness("end");
}

/// what an earlier test can leave behind
fn dirty() -> String {
    let k = one_of(b"0123456789");
    let mut s = String::new();
    s.push_str("set_variable(x, "); s.push(k as char); s.push_str(");\nset_variable(y, \"left\");\n");
    let d = choose(10);
    s.push_str(match d {
        0 => "new_record_request();\nset_field(T::f, 3);\nnew_record_request();\nset_field(T::f, x);\n",
        1 => "enter_find_mode();\nset_field(T::f, x);\n",
        2 => "loop {\nassert(x != x);\n}\n",
        3 => "loop {\nif(x == x) {\nloop {\nassert(x != x);\n}\n}\n}\n",
        4 => "perform_script(\"sub\");\n",
        5 => "go_to_layout(\"U\");\nnew_record_request();\nset_field(U::g, x);\n",
        6 => "new_record_request();\nset_field(T::f, 3);\nnew_record_request();\nset_field(T::f, 4);\nenter_find_mode();\nset_field(T::f, 3);\nperform_find();\n",
        7 => "new_record_request();\nnew_record_request();\ngo_to_record(\"first\");\nassert(x != x);\n",
        8 => "set_variable(z, 1);\nif(x == 3) {\nassert(x == 4);\n} else {\nset_variable(z, 2);\n}\n",
        _ => "loop {\nexit_loop_if(x == x);\n}\nloop {\nperform_script(\"sub\");\nexit_loop_if(x == x);\n}\n",
    });
    s
}
/// what a later test does; its verdict depends on everything it could have inherited
fn probe() -> String {
    let d = one_of(b"0123456789");
    let mut s = String::new();
    let p = choose(9);
    match p {
        0 => { s.push_str("assert(x != "); s.push(d as char); s.push_str(");\nassert(y != \"left\");\n"); }
        1 => { s.push_str("set_variable(r, T::f);\nassert(r != "); s.push(d as char); s.push_str(");\nassert(r == nothing);\n"); }
        2 => { s.push_str("new_record_request();\nset_field(T::f, "); s.push(d as char); s.push_str(");\nassert(T::f == "); s.push(d as char); s.push_str(");\ngo_to_record(\"first\");\nassert(T::f == "); s.push(d as char); s.push_str(");\n"); }
        3 => { s.push_str("set_variable(n, 0);\nloop {\nexit_loop_if(n == 2);\nset_variable(n, n + 1);\n}\nassert(n == 2);\nassert(n == "); s.push(d as char); s.push_str(");\n"); }
        4 => { s.push_str("new_record_request();\nset_field(T::f, 1);\nenter_find_mode();\nset_field(T::f, "); s.push(d as char); s.push_str(");\nperform_find();\ngo_to_record(\"last\");\nassert(T::f == 1);\n"); }
        5 => { s.push_str("go_to_layout(\"U\");\nassert(U::g != "); s.push(d as char); s.push_str(");\nset_variable(v, U::g);\nassert(v == nothing);\nnew_record_request();\nset_field(U::g, 2);\ngo_to_layout(\"T\");\nassert(T::f == nothing);\n"); }
        6 => { s.push_str("set_variable(n, 0);\nloop {\nset_variable(n, n + 1);\nif(n == 2) {\nexit_loop_if(n == 2);\n}\n}\nif(n == "); s.push(d as char); s.push_str(") {\nassert(n == 2);\n} else {\nassert(n == 3);\n}\n"); }
        7 => { s.push_str("perform_script(\"sub2\");\nassert(x != "); s.push(d as char); s.push_str(");\n"); }
        _ => { s.push_str("show_all_records();\nset_variable(n, 0);\ngo_to_record(\"first\");\nloop {\nset_variable(n, n + 1);\ngo_to_record(\"next\", \"true\");\n}\nassert(n == 1);\nassert(n == "); s.push(d as char); s.push_str(");\n"); }
    }
    s
}
/// a test behaves after any other exactly as it does when it is the only one
#[no_mangle]
pub extern "C" fn h_isolated() {
    let (a, b) = (dirty(), probe());
    let mk = |both: bool| {
        let mut f = file_with(&[("T", &["f"]), ("U", &["g"])]);
        let c = crate::compile::compiler::compile_burn("script: [\ndefine sub() {\nset_variable(w, 5);\nloop {\nassert(w != 5);\n}\n}\ndefine sub2() {\nset_variable(x, 1);\nassert(w != 5);\n}\n]\n");
        f.scripts = c.scripts;
        if both { add_tests(&mut f, &test_src("one", &a)); }
        add_tests(&mut f, &test_src("two", &b));
        f
    };
    let run = |f: &crate::file::FmpFile| {
        let mut te = TestEnvironment::new(f);
        te.generate_test_environment();
        color_print::take();
        te.run_tests_with_cleanup();
        color_print::take()
    };
    let alone = run(&mk(false));
    let after = run(&mk(true));
    let i = after.iter().rposition(|l| l.starts_with("Test one"));
    check(i.is_some(), "the first test was not reported");
    let after = &after[i.unwrap() + 1..];
    for l in after { observe(l.as_bytes()); }
    check(alone.len() == after.len() && alone.iter().zip(after).all(|(x, y)| x == y), "a test ended differently after another test than alone");
    witness("end");
}
