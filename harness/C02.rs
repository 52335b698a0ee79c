//! Steps of a script written as text.
use crate::rt::*;
use crate::hx_burnkit::*;
use crate::hx_opkit::*;
use crate::fm_script_engine::fm_script_engine_instructions::ScriptStep;
use crate::file::FmpFile;

/// the steps of the language and their codes
pub const WORDS: [(&str, u8); 14] = [("perform_script", 1), ("go_to_layout", 6), ("go_to_record", 16), ("go_to_request", 16), ("enter_find_mode", 22), ("perform_find", 28), ("show_all_records", 23), ("set_field", 76), ("set_variable", 141), ("exit_loop_if", 72), ("new_record_request", 7), ("exit_script", 103), ("show_custom_dialog", 87), ("assert", 255)];
pub struct Step { pub code: u8, pub args: Vec<Vec<u8>> }
pub fn expect(got: &[ScriptStep], want: &[Step]) {
    check(got.len() == want.len(), "a script has another number of steps");
    for (g, w) in got.iter().zip(want) {
        check(is_step(&g.opcode, w.code), "a step is another one");
        // a step written without arguments may keep one empty argument
        if w.args.is_empty() { check(g.switches.is_empty() || g.switches.len() == 1 && g.switches[0].is_empty(), "a step without arguments has one"); continue; }
        check(g.switches.len() == w.args.len(), "a step has another number of arguments");
        for (a, b) in g.switches.iter().zip(&w.args) { observe(a.as_bytes()); check(a.as_bytes() == &b[..], "a step has another argument"); }
    }
}
pub fn script<'a>(f: &'a FmpFile, id: usize) -> &'a crate::component::FMComponentScript { match f.scripts.get(&id) { Some(s) => s, None => fail("a declared script is missing") } }
/// a piece of an argument
fn piece(kind: usize) -> Vec<u8> {
    let mut v = vec![];
    match kind {
        // any text in quotes
        0 => { v.push(b'"'); v.push(printable_but(b"\"")); v.push(printable_but(b"\"")); v.push(b'"'); }
        1 => { v.push(letter()); v.push(letter_or_digit()); }
        // a call with several arguments, one of them a text
        2 => { v.extend_from_slice(b"Min(a, "); v.push(b'"'); v.push(printable_but(b"\"")); v.push(b'"'); v.extend_from_slice(b",f(2))"); }
        3 => { v.extend_from_slice(b" "); v.push(one_of(b"+-*/&=<>!")); v.extend_from_slice(b"\n "); }
        4 => { v.push(b'('); v.push(letter()); v.extend_from_slice(b", ("); v.push(b'"'); v.push(printable_but(b"\"")); v.extend_from_slice(b"\") )"); }
        5 => v.extend_from_slice(b"Occ::field"),
        6 => v.extend_from_slice(b"{x}"),
        7 => v.extend_from_slice(b"($$a)"),
        // any character of two bytes
        _ => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); v.extend_from_slice(&[b'"', 0xc3, b, b'"']); }
    }
    v
}
fn argument(n: usize, kinds: usize) -> Vec<u8> {
    let mut v = vec![];
    let k = 1 + choose(n);
    for _ in 0..k { v.extend(piece(choose(kinds))); }
    // blanks around an argument are not part of it
    let a = v.iter().position(|c| *c != b' ' && *c != b'\n').unwrap_or(v.len());
    let b = v.iter().rposition(|c| *c != b' ' && *c != b'\n').map_or(a, |x| x + 1);
    v[a..b].to_vec()
}
/// the text of every argument
#[no_mangle]
pub extern "C" fn h_arguments() {
    let n = 1 + choose(param(0));
    let args: Vec<Vec<u8>> = (0..n).map(|_| argument(param(1), param(2))).collect();
    let mut s = S::new();
    s.raw(b"script: [ define s() { set_variable(");
    let gap = ["", " ", "\n  "][choose(3)].as_bytes();
    for (i, a) in args.iter().enumerate() { if i > 0 { s.raw(b","); } s.raw(gap).raw(a).raw(gap); }
    s.raw(b"); exit_script(z); } ]");
    let f = s.compile();
    check(f.scripts.len() == 1, "another number of scripts");
    expect(&script(&f, 1).instructions, &[Step { code: 141, args }, Step { code: 103, args: vec![b"z".to_vec()] }]);
    witness("end");
}
/// a long text in quotes
#[no_mangle]
pub extern "C" fn h_text() {
    let n = choose(param(0) + 1);
    let mut a = vec![b'"'];
    for _ in 0..n { a.push(printable_but(b"\"")); }
    a.push(b'"');
    let mut s = S::new();
    s.raw(b"script: [ define s() { show_custom_dialog(").raw(&a).raw(b"); } ]");
    let f = s.compile();
    expect(&script(&f, 1).instructions, &[Step { code: 87, args: vec![a] }]);
    witness("end");
}
/// any steps in any order, in several scripts
#[no_mangle]
pub extern "C" fn h_steps() {
    let ns = 1 + choose(param(0));
    let mut s = S::new();
    s.raw(b"script: [ ");
    let mut wants = vec![];
    for i in 0..ns {
        let np = choose(3);
        s.raw(format!("define s{}(", i).as_bytes());
        let ps: Vec<Vec<u8>> = (0..np).map(|k| { name(1 + k) }).collect();
        for (k, p) in ps.iter().enumerate() { if k > 0 { s.raw(b", "); } s.raw(p); }
        s.raw(b") {\n");
        let n = choose(param(1) + 1);
        let mut want = vec![];
        for _ in 0..n {
            let (word, code) = WORDS[choose(WORDS.len())];
            let na = choose(3);
            let args: Vec<Vec<u8>> = (0..na).map(|_| vec![letter()]).collect();
            s.raw(word.as_bytes()).raw([&b"("[..], b" ("][choose(2)]);
            for (k, a) in args.iter().enumerate() { if k > 0 { s.raw(b","); } s.raw(a); }
            s.raw(b");\n");
            want.push(Step { code, args });
        }
        s.raw(b"}\n");
        wants.push((ps, want));
    }
    s.raw(b"]\n");
    let f = s.compile();
    check(f.scripts.len() == ns, "another number of scripts");
    for (i, (ps, want)) in wants.iter().enumerate() {
        let g = script(&f, i + 1);
        same(&g.script_name, format!("s{}", i).as_bytes(), "a script has another name");
        if ps.is_empty() { check(g.arguments.is_empty() || g.arguments.len() == 1 && g.arguments[0].is_empty(), "a script without parameters has one"); } else {
            check(g.arguments.len() == ps.len(), "a script has another number of parameters");
            for (a, b) in g.arguments.iter().zip(ps) { same(a, b, "a script has another parameter"); }
        }
        expect(&g.instructions, want);
    }
    witness("end");
}
/// a test's script is compiled like any other
#[no_mangle]
pub extern "C" fn h_test() {
    let a = argument(param(0), param(1));
    let mut s = S::new();
    s.raw(b"test T: script: [ define m() { assert(").raw(&a).raw(b"); go_to_record(\"next\"); } ], end test;");
    let f = s.compile();
    check(f.tests.len() == 1, "another number of tests");
    same(&f.tests[0].script.script_name, b"m", "a test runs another script");
    expect(&f.tests[0].script.instructions, &[Step { code: 255, args: vec![a] }, Step { code: 16, args: vec![b"\"next\"".to_vec()] }]);
    witness("end");
}
/// any parameters
#[no_mangle]
pub extern "C" fn h_parameters() {
    let n = 1 + choose(param(0));
    let ps: Vec<Vec<u8>> = (0..n).map(|_| name(1 + choose(2))).collect();
    let mut s = S::new();
    s.raw(b"script: [ define s");
    if flag() { s.raw(b" "); }
    s.raw(b"(");
    let gap = ["", " ", "\n  "][choose(3)].as_bytes();
    for (i, a) in ps.iter().enumerate() { if i > 0 { s.raw(b","); } s.raw(gap).raw(a).raw(gap); }
    s.raw(b") { assert(x); } define t(q) { } ]");
    let f = s.compile();
    check(f.scripts.len() == 2, "another number of scripts");
    let g = script(&f, 1);
    check(g.arguments.len() == n, "a script has another number of parameters");
    for (a, b) in g.arguments.iter().zip(&ps) { same(a, b, "a script has another parameter"); }
    expect(&g.instructions, &[Step { code: 255, args: vec![b"x".to_vec()] }]);
    check(script(&f, 2).arguments.len() == 1, "the next script has other parameters");
    witness("end");
}
/// a long script: many steps, or many arguments, or a long argument
#[no_mangle]
pub extern "C" fn h_long() {
    let n = param(0);
    let mut s = S::new();
    s.raw(b"script: [ define s() {\n");
    let mut want = vec![];
    let mut step = |s: &mut S, k: usize, args: Vec<Vec<u8>>| {
        s.raw(WORDS[k].0.as_bytes()).raw(b"(");
        for (i, a) in args.iter().enumerate() { if i > 0 { s.raw(b", "); } s.raw(a); }
        s.raw(b");\n");
        want.push(Step { code: WORDS[k].1, args });
    };
    match choose(3) {
        0 => { let at = [0, n / 2, n - 1][choose(3)]; for i in 0..n { step(&mut s, i % 14, if i == at { vec![vec![letter()], vec![letter()]] } else { vec![format!("a{}", i).into_bytes()] }); } }
        1 => { let at = choose(n.min(40)); step(&mut s, 8, (0..n).map(|i| if i == at { vec![letter()] } else { format!("b{}", i).into_bytes() }).collect()); }
        _ => { let at = [0, n / 2, n - 1][choose(3)]; let mut v = vec![b'"']; for i in 0..n { v.push(if i == at { printable_but(b"\"") } else { b"a ;,({[x"[i % 8] }); } v.push(b'"'); step(&mut s, 8, vec![v, b"x".to_vec()]); }
    }
    s.raw(b"}\n define t() { exit_script(z); } ]");
    let f = s.compile();
    check(f.scripts.len() == 2, "another number of scripts");
    expect(&script(&f, 1).instructions, &want);
    expect(&script(&f, 2).instructions, &[Step { code: 103, args: vec![b"z".to_vec()] }]);
    witness("end");
}
