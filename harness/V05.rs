//! Variables: a variable reads as the last value set under exactly its name, and as empty before that.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_vmprog::*;

const M: &str = "a variable did not read as the last value set under its name";

/// any history of assignments over a few names, then every name is read
#[no_mangle]
pub extern "C" fn h_history() {
    let names = b"xyz";
    let mut prog = vec![];
    for _ in 0..param(0) {
        let v = one_of(names);
        match choose(4) {
            0 => prog.push(S::Set(v, E::Num(below(10) as u8))),
            1 => prog.push(S::Set(v, E::Str(vec![one_of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;:?!+-*/=<>#@_'")]))),
            2 => { let w = one_of(names); prog.push(S::Set(w, E::Num(1))); prog.push(S::Set(v, E::Var(w))) }
            _ => { prog.push(S::Show(v)) }
        }
    }
    for v in names { prog.push(S::Show(*v)); }
    decide(&[], &prog, M);
    witness("end");
}

/// names that are prefixes or case variants of one another, or look like step names, stay apart
#[no_mangle]
pub extern "C" fn h_names() {
    let all: [&str; 9] = ["total", "Total", "total_1", "total_", "tot", "set_variable", "iff", "looper", "Min"];
    let (i, j) = (choose(all.len()), choose(all.len()));
    let (a, b) = (one_of(b"0123456789"), one_of(b"abcxyz"));
    let mut src = String::new();
    src.push_str("set_variable("); src.push_str(all[i]); src.push_str(", "); src.push(a as char); src.push_str(");\n");
    src.push_str("set_variable("); src.push_str(all[j]); src.push_str(", \""); src.push(b as char); src.push_str("\");\n");
    for n in [all[i], all[j]] { src.push_str("new_record_request(); set_field(T::f, "); src.push_str(n); src.push_str(");\n"); }
    let mut f = file_with(&[("T", &["f"])]);
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let second = vec![b'"', b, b'"'];
    let want = vec![if i == j { second.clone() } else { vec![a] }, second];
    check_values(&te, &want, M);
    witness("end");
}

/// text of any printable characters goes through a variable unchanged
#[no_mangle]
pub extern "C" fn h_text() {
    let n = 1 + choose(param(0));
    let t: Vec<u8> = (0..n).map(|_| { let b = byte(); assume(b >= 32 && b < 127 && b != b'"'); b }).collect();
    // outside: text of nothing but blanks and punctuation is also accepted, checked under its own property
    let src = { let mut s = String::from("set_variable(x, \""); for b in &t { s.push(*b as char); } s.push_str("\");\nset_variable(y, x);\nnew_record_request(); set_field(T::f, y);\n"); s };
    let mut f = file_with(&[("T", &["f"])]);
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let mut w = vec![b'"']; w.extend_from_slice(&t); w.push(b'"');
    check_values(&te, &[w], M);
    witness("end");
}

/// an assignment evaluates its calculation before it takes effect, and a counter counts
#[no_mangle]
pub extern "C" fn h_self() {
    let (a, n) = (below(10) as u8, choose(param(0)));
    let mut prog = vec![S::Set(b'x', E::Num(a)), S::Set(b'y', E::Var(b'x'))];
    for _ in 0..n { prog.push(S::Set(b'x', E::Inc(b'x'))); if flag() { prog.push(S::Set(b'y', E::Var(b'x'))); } }
    prog.push(S::Show(b'x')); prog.push(S::Show(b'y'));
    decide(&[], &prog, M);
    witness("end");
}
