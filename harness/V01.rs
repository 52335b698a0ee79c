//! Conditional blocks: exactly the first branch whose condition holds runs, at any nesting, and execution continues after the block.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::testing::test::TestEnvironment;

pub enum Cond { Eq(usize, u8), Ne(usize, u8) }
pub enum S { Log(u8), Set(usize, u8), If(Vec<(Cond, Vec<S>)>, Option<Vec<S>>) }

fn cond_text(c: &Cond, out: &mut String) {
    let (v, op, d) = match c { Cond::Eq(v, d) => (*v, " == ", *d), Cond::Ne(v, d) => (*v, " != ", *d) };
    out.push((b'p' + v as u8) as char); out.push_str(op); out.push(d as char);
}
fn text(b: &[S], out: &mut String) {
    for s in b {
        match s {
            S::Log(k) => log_text(*k, out),
            S::Set(v, d) => { out.push_str("set_variable("); out.push((b'p' + *v as u8) as char); out.push_str(", "); out.push(*d as char); out.push_str(");\n"); }
            S::If(arms, other) => {
                for (i, (c, body)) in arms.iter().enumerate() {
                    out.push_str(if i == 0 { "if(" } else { " elif(" });
                    cond_text(c, out); out.push_str(") {\n"); text(body, out); out.push('}');
                }
                if let Some(body) = other { out.push_str(" else {\n"); text(body, out); out.push('}'); }
                out.push('\n');
            }
        }
    }
}
fn holds(c: &Cond, vars: &[u8]) -> bool { match c { Cond::Eq(v, d) => vars[*v] == *d, Cond::Ne(v, d) => vars[*v] != *d } }
fn run(b: &[S], vars: &mut Vec<u8>, log: &mut Vec<u8>) {
    for s in b {
        match s {
            S::Log(k) => log.push(*k),
            S::Set(v, d) => vars[*v] = *d,
            S::If(arms, other) => {
                let mut done = false;
                for (c, body) in arms { if holds(c, vars) { run(body, vars, log); done = true; break; } }
                if !done { if let Some(body) = other { run(body, vars, log); } }
            }
        }
    }
}
/// one conditional block, with nested ones up to `depth`; every place where a step can stand gets its own mark
fn gen_if(depth: usize, arms: usize, mark: &mut u8, vars: &mut usize, nvars: usize) -> S {
    let n = 1 + choose(arms);
    let mut v = vec![];
    for _ in 0..n {
        let c = if *vars % 2 == 0 { Cond::Eq(*vars % nvars, b'1') } else { Cond::Ne(*vars % nvars, b'1') };
        *vars += 1;
        v.push((c, gen_body(depth, arms, mark, vars, nvars)));
    }
    let other = if flag() { Some(gen_body(depth, arms, mark, vars, nvars)) } else { None };
    S::If(v, other)
}
fn next(mark: &mut u8) -> S { let k = *mark; *mark += 1; S::Log(k) }
fn gen_body(depth: usize, arms: usize, mark: &mut u8, vars: &mut usize, nvars: usize) -> Vec<S> {
    if depth == 0 { return vec![next(mark)]; }
    match choose(4) {
        0 => vec![],
        1 => vec![next(mark)],
        2 => vec![next(mark), gen_if(depth - 1, arms, mark, vars, nvars)],
        _ => vec![gen_if(depth - 1, arms, mark, vars, nvars), next(mark)],
    }
}
fn decide(body: &[S], init: Vec<u8>) {
    let mut src = String::new();
    for (i, d) in init.iter().enumerate() { src.push_str("set_variable("); src.push((b'p' + i as u8) as char); src.push_str(", "); src.push(*d as char); src.push_str(");\n"); }
    text(body, &mut src);
    let mut f = file_with(&[("T", &["f"])]);
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let mut want = vec![];
    let mut vars = init;
    run(body, &mut vars, &mut want);
    check_log(&te, &want, "the steps that ran are not the ones of the branches whose condition holds");
}

/// chains of any length with an optional else, nothing nested
#[no_mangle]
pub extern "C" fn h_chain() {
    let nv = param(0);
    let (mut mark, mut vars) = (b'a', 0);
    let blk = gen_if(0, param(1), &mut mark, &mut vars, nv);
    let body = vec![next(&mut mark), blk, next(&mut mark)];
    let init = (0..nv).map(|_| one_of(b"012")).collect();
    decide(&body, init);
    witness("end");
}
/// nested blocks, in every branch position
#[no_mangle]
pub extern "C" fn h_nested() {
    let nv = param(0);
    let (mut mark, mut vars) = (b'a', 0);
    let blk = gen_if(param(2), param(1), &mut mark, &mut vars, nv);
    let body = vec![blk, next(&mut mark)];
    let init = (0..nv).map(|_| one_of(b"01")).collect();
    decide(&body, init);
    witness("end");
}
/// a branch that changes the tested variable does not make a later branch of the same block run
#[no_mangle]
pub extern "C" fn h_changed() {
    let d = one_of(b"0123");
    let e = one_of(b"0123");
    let order = choose(3);
    let arm = |k: u8, v: u8| (Cond::Eq(0, v), vec![S::Log(k), S::Set(0, e), S::Log(k + 1)]);
    let mut arms = vec![arm(b'a', b'0'), arm(b'c', b'1'), arm(b'e', b'2')];
    if order >= 1 { arms.swap(0, 1); }
    if order == 2 { arms.swap(1, 2); }
    let other = if flag() { Some(vec![S::Log(b'g'), S::Set(0, e)]) } else { None };
    let body = vec![S::If(arms, other), S::If(vec![(Cond::Eq(0, b'1'), vec![S::Log(b'x')])], Some(vec![S::Log(b'y')]))];
    decide(&body, vec![d]);
    witness("end");
}
