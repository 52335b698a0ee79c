//! Layouts: going to a layout shows its occurrence, every occurrence keeping its own found set and position; an unknown layout changes nothing.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_dbkit::*;
use crate::component::*;
const M: &str = "going to a layout did not show its occurrence as it was left";

#[no_mangle]
pub extern "C" fn h_return() {
    let mut ops = vec![];
    fill(&mut ops, 0, b"aba");
    fill(&mut ops, 2, b"cd");
    for _ in 0..param(0) {
        ops.push(Op::Layout(choose(3)));
        match choose(4) { 0 => {} 1 => ops.push(Op::Nav(if flag() { Go::First } else { Go::Next })), 2 => { ops.push(Op::Find(0, quoted([b'a', b'c'][choose(2)]))); ops.push(Op::Nav(Go::Last)); } _ => ops.push(Op::New) }
    }
    decide(ops, M);
    witness("end");
}
/// layouts named differently from their occurrences, several for one occurrence, and names that match no layout
#[no_mangle]
pub extern "C" fn h_names() {
    let mut f = file_with(&[("T", &["f"]), ("U", &["f"]), ("W", &["f"])]);
    f.layouts.clear();
    let at: Vec<usize> = (0..3).map(|_| 1 + choose(3)).collect();
    let names = ["first view", "second", "sec"];
    for i in 0..3 { let mut l = FMComponentLayout::new(); l.layout_name = names[i].to_string(); l.table_occurrence = at[i]; f.layouts.insert(i + 1, l); }
    let mut src = String::new();
    let (mut cur, mut want) = (1usize, vec![]);
    for _ in 0..param(0) {
        let k = choose(5);
        if k < 3 { cur = at[k]; }
        src.push_str("go_to_layout(\""); src.push_str(["first view", "second", "sec", "T", "second view"][k]); src.push_str("\");\n");
        if flag() { src.push_str("new_record_request();\n"); want.push(cur); }
    }
    src.push_str("new_record_request();\n");
    want.push(cur);
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    for (i, t) in ["T", "U", "W"].iter().enumerate() { check(column(&te, t, 0).len() == want.iter().filter(|x| **x == i + 1).count(), M); }
    witness("end");
}
/// the name may be computed; symbolic characters
#[no_mangle]
pub extern "C" fn h_computed() {
    let mut f = file_with(&[("Ta", &["f"]), ("Tb", &["f"]), ("Ub", &["f"])]);
    let (a, b) = (one_of(b"TUVtu"), one_of(b"abcAB"));
    let mut src = String::new();
    match choose(3) {
        0 => { src.push_str("go_to_layout(\""); src.push(a as char); src.push(b as char); src.push_str("\");\n"); }
        1 => { src.push_str("go_to_layout(\""); src.push(a as char); src.push_str("\" & \""); src.push(b as char); src.push_str("\");\n"); }
        _ => { src.push_str("set_variable(x, \""); src.push(b as char); src.push_str("\");\ngo_to_layout(\""); src.push(a as char); src.push_str("\" & x);\n"); }
    }
    src.push_str("new_record_request();\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let at = if a == b'T' && b == b'b' { 1 } else if a == b'U' && b == b'b' { 2 } else { 0 };
    for (i, t) in ["Ta", "Tb", "Ub"].iter().enumerate() { check(column(&te, t, 0).len() == (i == at) as usize, M); }
    witness("end");
}
