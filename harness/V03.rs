//! Script calls: the callee runs to its end with variables of its own, then the caller continues with the next step.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_vmprog::*;

const M: &str = "the steps that ran, or the values they saw, are not the ones the calls ask for";
fn eq(a: u8, n: u8) -> C { C::Eq(E::Var(a), E::Num(n)) }
fn call(n: &[u8]) -> S { S::Call(n.to_vec()) }
fn scr(n: &[u8], body: Vec<S>) -> Script { Script { name: n.to_vec(), body } }

/// caller and callees read and write variables of the same names
#[no_mangle]
pub extern "C" fn h_private() {
    let (a, b, c) = (below(3) as u8, below(3) as u8, below(3) as u8);
    let (v, w) = (one_of(b"xy"), one_of(b"xy"));
    let s1 = scr(b"one", vec![S::Show(b'x'), S::Set(v, E::Num(b)), call(b"two"), S::Show(b'x'), S::Show(b'y')]);
    let s2 = scr(b"two", vec![S::Show(w), S::Set(w, E::Num(c)), S::Show(b'x'), S::Show(b'y')]);
    let k = choose(3);
    let mut prog = vec![S::Set(b'x', E::Num(a)), S::Set(b'y', E::Str(vec![b'k']))];
    if k != 1 { prog.push(call(b"one")); }
    if k == 2 { prog.push(call(b"one")); }
    prog.push(S::Show(b'x'));
    if k >= 1 { prog.push(call(b"two")); }
    prog.push(S::Show(b'y'));
    let ss = if flag() { vec![s1, s2] } else { vec![s2, s1] };
    decide(&ss, &prog, M);
    witness("end");
}

/// a call may stand anywhere: in a loop, in a branch, as the last step; its callee may loop and branch itself
#[no_mangle]
pub extern "C" fn h_anywhere() {
    let (a, b, c) = (below(3) as u8, below(3) as u8, below(3) as u8);
    let lp = |v: u8, n: u8, body: Vec<S>| { let mut x = vec![S::ExitIf(eq(v, n))]; x.extend(body); x.push(S::Set(v, E::Inc(v))); vec![S::Set(v, E::Num(0)), S::Loop(x)] };
    let callee = match choose(6) {
        0 => vec![],
        1 => vec![S::Log(b'e')],
        2 => { let mut v = lp(b'n', b, vec![S::Log(b'e')]); v.push(S::Show(b'n')); v }
        3 => vec![S::Set(b'q', E::Num(c)), S::If(vec![(eq(b'q', 1), vec![S::Log(b'e')]), (eq(b'q', 2), vec![S::Log(b'f')])], None)],
        4 => lp(b'n', b, vec![call(b"leaf"), S::Log(b'g')]),
        _ => vec![S::Set(b'q', E::Num(c)), S::Loop(vec![S::If(vec![(eq(b'q', 1), vec![S::Log(b'e'), S::ExitIf(eq(b'q', 1))])], Some(vec![S::Log(b'f')])), S::ExitIf(eq(b'q', 2)), S::Set(b'q', E::Inc(b'q'))])],
    };
    let site = match choose(4) {
        0 => vec![S::Log(b'a'), call(b"sub")],
        1 => { let mut v = lp(b'n', a, vec![S::Log(b'a'), call(b"sub"), S::Show(b'n')]); v.push(S::Log(b'b')); v }
        2 => vec![S::Set(b'q', E::Num(a)), S::If(vec![(eq(b'q', 1), vec![call(b"sub"), S::Log(b'a')])], Some(vec![S::Log(b'b'), call(b"sub")])), S::Log(b'c')],
        _ => vec![call(b"sub"), S::Set(b'm', E::Num(0)), S::Loop(vec![call(b"sub"), S::If(vec![(eq(b'm', a), vec![S::Log(b'a'), S::ExitIf(eq(b'm', a))])], None), S::Set(b'm', E::Inc(b'm'))]), S::Log(b'z')],
    };
    decide(&[scr(b"sub", callee), scr(b"leaf", vec![S::Log(b'l')])], &site, M);
    witness("end");
}

/// the name is a calculation; a call of a script that does not exist changes nothing
#[no_mangle]
pub extern "C" fn h_name() {
    let (p, q) = (one_of(b"abcdefghABCxyz"), one_of(b"abcdefgh_12xyz"));
    let ss = vec![scr(b"ab", vec![S::Log(b'1')]), scr(b"ba", vec![S::Log(b'2')]), scr(b"a", vec![S::Log(b'3')]), scr(b"abc", vec![S::Log(b'4')]), scr(b"Ab", vec![S::Log(b'5')]), scr(b"B", vec![S::Log(b'6')]), scr(b"a_c", vec![S::Log(b'7')])];
    let name = match choose(3) { 0 => vec![p], 1 => vec![p, q], _ => vec![p, q, b'c'] };
    let mut prog = vec![S::Set(b'x', E::Num(4)), S::Log(b'a')];
    if flag() { prog.push(S::Call(name)); } else { prog.push(S::Set(b's', E::Str(name))); prog.push(S::CallVar(b's')); }
    prog.push(S::Show(b'x'));
    decide(&ss, &prog, M);
    witness("end");
}

/// chains of calls, each level keeping its own value across the call it makes
#[no_mangle]
pub extern "C" fn h_chain() {
    let n = 1 + choose(param(0));
    let d: Vec<u8> = (0..=n).map(|_| below(10) as u8).collect();
    let mut ss = vec![];
    for i in 0..n {
        let mut body = vec![S::Show(b'v'), S::Set(b'v', E::Num(d[i]))];
        if i + 1 < n { body.push(call(&[b's', b'1' + i as u8])); }
        body.push(S::Show(b'v'));
        ss.push(scr(&[b's', b'0' + i as u8], body));
    }
    let twice = flag();
    let mut prog = vec![S::Set(b'v', E::Num(d[n])), call(b"s0")];
    if twice { prog.push(call(b"s0")); }
    prog.push(S::Show(b'v'));
    decide(&ss, &prog, M);
    witness("end");
}

/// a failing assertion in a callee ends the whole test
#[no_mangle]
pub extern "C" fn h_fail() {
    let (a, b) = (below(3) as u8, below(3) as u8);
    let at = choose(3);
    let asrt = |v: u8| S::Assert(C::Ne(E::Var(v), E::Num(1)));
    let mut two = vec![S::Set(b'x', E::Num(b)), S::Log(b'c')];
    if at == 1 { two.push(asrt(b'x')); }
    two.push(S::Log(b'd'));
    let mut one = vec![S::Log(b'b'), call(b"two")];
    if at == 2 { one.push(S::Set(b'x', E::Num(a))); one.push(asrt(b'x')); }
    one.push(S::Log(b'e'));
    let mut prog = vec![S::Set(b'x', E::Num(a)), S::Log(b'a'), call(b"one")];
    if at == 0 { prog.push(asrt(b'x')); }
    prog.push(S::Log(b'f'));
    decide(&[scr(b"one", one), scr(b"two", two)], &prog, M);
    witness("end");
}
