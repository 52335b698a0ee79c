//! Small script programs: their burn source text, and what they mean. The meaning is written from the language's rules
//! (a conditional runs its first true branch, a loop repeats until its own exit fires, a call runs the callee to its end),
//! over the program tree, without looking at how the implementation moves its instruction pointer.
#![allow(dead_code)]
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::file::FmpFile;
use crate::compile::compiler::compile_burn;
use crate::testing::test::TestEnvironment;

#[derive(Clone)]
pub enum E { Num(u8), Var(u8), Inc(u8), Str(Vec<u8>) }
#[derive(Clone)]
pub enum C { Eq(E, E), Ne(E, E) }
#[derive(Clone)]
pub enum S {
    Log(u8), Show(u8), Set(u8, E), If(Vec<(C, Vec<S>)>, Option<Vec<S>>), Loop(Vec<S>), ExitIf(C), Call(Vec<u8>), CallVar(u8), Assert(C),
}
pub struct Script { pub name: Vec<u8>, pub body: Vec<S> }

pub fn e_text(e: &E, o: &mut String) {
    match e {
        E::Num(n) => o.push((b'0' + *n) as char),
        E::Var(v) => o.push(*v as char),
        E::Inc(v) => { o.push(*v as char); o.push_str(" + 1"); }
        E::Str(s) => { o.push('"'); for b in s { o.push(*b as char); } o.push('"'); }
    }
}
pub fn c_text(c: &C, o: &mut String) {
    match c { C::Eq(a, b) => { e_text(a, o); o.push_str(" == "); e_text(b, o) } C::Ne(a, b) => { e_text(a, o); o.push_str(" != "); e_text(b, o) } }
}
pub fn text(b: &[S], o: &mut String) {
    for s in b {
        match s {
            S::Log(k) => log_text(*k, o),
            S::Show(v) => { o.push_str("new_record_request();\nset_field(T::f, "); o.push(*v as char); o.push_str(");\n"); }
            S::Set(v, e) => { o.push_str("set_variable("); o.push(*v as char); o.push_str(", "); e_text(e, o); o.push_str(");\n"); }
            S::If(arms, other) => {
                for (i, (c, body)) in arms.iter().enumerate() {
                    o.push_str(if i == 0 { "if(" } else { " elif(" });
                    c_text(c, o); o.push_str(") {\n"); text(body, o); o.push('}');
                }
                if let Some(body) = other { o.push_str(" else {\n"); text(body, o); o.push('}'); }
                o.push('\n');
            }
            S::Loop(body) => { o.push_str("loop {\n"); text(body, o); o.push_str("}\n"); }
            S::ExitIf(c) => { o.push_str("exit_loop_if("); c_text(c, o); o.push_str(");\n"); }
            S::Call(n) => { o.push_str("perform_script(\""); for b in n { o.push(*b as char); } o.push_str("\");\n"); }
            S::CallVar(v) => { o.push_str("perform_script("); o.push(*v as char); o.push_str(");\n"); }
            S::Assert(c) => { o.push_str("assert("); c_text(c, o); o.push_str(");\n"); }
        }
    }
}

/// what a variable holds as the user sees it: a number's digits, or a text with its quotes; empty when never set in this scope
pub type Val = Vec<u8>;
pub type Scope = Vec<(u8, Val)>;
pub enum Ctl { Next, Leave, Failed }

fn get(s: &Scope, v: u8) -> Val { match s.iter().find(|x| x.0 == v) { Some(x) => x.1.clone(), None => vec![] } }
fn put(s: &mut Scope, v: u8, val: Val) { match s.iter_mut().find(|x| x.0 == v) { Some(x) => x.1 = val, None => s.push((v, val)) } }
fn eval(e: &E, s: &Scope) -> Val {
    match e {
        E::Num(n) => vec![b'0' + *n],
        E::Var(v) => get(s, *v),
        E::Inc(v) => {
            let x = get(s, *v);
            let mut n = 0u32;
            for d in &x { n = n * 10 + (*d - b'0') as u32; }
            n += 1;
            if n < 10 { vec![b'0' + n as u8] } else { vec![b'0' + (n / 10) as u8, b'0' + (n % 10) as u8] }
        }
        E::Str(t) => { let mut r = vec![b'"']; r.extend_from_slice(t); r.push(b'"'); r }
    }
}
fn holds(c: &C, s: &Scope) -> bool { match c { C::Eq(a, b) => eval(a, s) == eval(b, s), C::Ne(a, b) => eval(a, s) != eval(b, s) } }

pub fn run(b: &[S], scripts: &[Script], vars: &mut Scope, log: &mut Vec<Val>) -> Ctl {
    for s in b {
        match s {
            S::Log(k) => log.push(vec![b'"', *k, b'"']),
            S::Show(v) => log.push(get(vars, *v)),
            S::Set(v, e) => { let x = eval(e, vars); put(vars, *v, x) }
            S::If(arms, other) => {
                let mut chosen = other.as_ref();
                for (c, body) in arms { if holds(c, vars) { chosen = Some(body); break; } }
                if let Some(body) = chosen { match run(body, scripts, vars, log) { Ctl::Next => {} x => return x } }
            }
            S::Loop(body) => loop {
                match run(body, scripts, vars, log) { Ctl::Next => {} Ctl::Leave => break, Ctl::Failed => return Ctl::Failed }
            },
            S::ExitIf(c) => if holds(c, vars) { return Ctl::Leave; },
            S::Call(_) | S::CallVar(_) => {
                let n = match s { S::Call(n) => n.clone(), S::CallVar(v) => { let x = get(vars, *v); x[1..x.len() - 1].to_vec() } _ => unreachable!() };
                if let Some(c) = scripts.iter().find(|x| x.name == n) {
                    let mut own = vec![];
                    if let Ctl::Failed = run(&c.body, scripts, &mut own, log) { return Ctl::Failed; }
                }
            }
            S::Assert(c) => if !holds(c, vars) { return Ctl::Failed; },
        }
    }
    Ctl::Next
}

pub fn script_src(scripts: &[Script]) -> String {
    let mut o = String::from("script: [\n");
    for s in scripts {
        o.push_str("define "); for b in &s.name { o.push(*b as char); } o.push_str("() {\n");
        text(&s.body, &mut o);
        o.push_str("}\n");
    }
    o.push_str("]\n");
    o
}
pub fn program_file(scripts: &[Script], tests: &[(&str, &[S])]) -> FmpFile {
    let mut f = file_with(&[("T", &["f"])]);
    if !scripts.is_empty() {
        let c = compile_burn(&script_src(scripts));
        f.scripts = c.scripts;
    }
    for (n, b) in tests {
        let mut o = String::new();
        text(b, &mut o);
        add_tests(&mut f, &test_src(n, &o));
    }
    f
}
/// run one test of the program on the real code and compare the marks it leaves and its verdict with the meaning
pub fn decide(scripts: &[Script], body: &[S], m: &str) {
    let f = program_file(scripts, &[("a", body)]);
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    let lines = run_all(&mut te);
    let (mut vars, mut want) = (vec![], vec![]);
    let failed = matches!(run(body, scripts, &mut vars, &mut want), Ctl::Failed);
    check_values(&te, &want, m);
    check(verdicts(&lines) == vec![!failed], "the reported verdict is not the one the assertions give");
}
pub fn check_values(te: &TestEnvironment, want: &[Val], m: &str) {
    let got = column(te, "T", 0);
    for g in &got { observe(g.as_bytes()); }
    check(got.len() == want.len(), m);
    for (g, w) in got.iter().zip(want) { check(g.as_bytes() == &w[..], m); }
}
/// the verdict lines among the messages, in order: true for success
pub fn verdicts(lines: &[String]) -> Vec<bool> {
    let mut v = vec![];
    for l in lines { if l.starts_with("Test ") { v.push(l.contains("Success")); check(l.contains("Success") != l.contains("Fail"), "a verdict line that says neither or both"); } }
    v
}
