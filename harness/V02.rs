//! Loops: a loop repeats its body until its own exit fires, and then the steps after it run.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::hx_vmprog::*;

const M: &str = "the steps that ran are not the ones the loops ask for";
fn eq(a: u8, n: u8) -> C { C::Eq(E::Var(a), E::Num(n)) }

/// one counting loop; the exit stands anywhere in the body and fires at any count
#[no_mangle]
pub extern "C" fn h_count() {
    let k = below(param(0)) as u8;
    let (p, q) = (choose(3), choose(2));
    let exit = S::ExitIf(if q == 0 { eq(b'n', k) } else { C::Eq(E::Var(b'n'), E::Var(b'k')) });
    let step = S::Set(b'n', E::Inc(b'n'));
    let body = match p {
        0 => vec![exit, S::Show(b'n'), step],
        1 => vec![S::Show(b'n'), exit, S::Log(b'm'), step],
        _ => vec![S::Log(b'm'), S::Show(b'n'), step, S::Log(b'o'), exit],
    };
    let start = if p == 2 { E::Num(0) } else { E::Num(below(2) as u8) };
    // when the exit follows the increment, the first count it sees is 1; keep the loop finite
    assume(p != 2 || k >= 1);
    if let E::Num(s) = &start { assume(*s <= k); }
    let mut prog = vec![S::Set(b'k', E::Num(k)), S::Set(b'n', start), S::Log(b'a'), S::Loop(body), S::Show(b'n'), S::Log(b'z')];
    if flag() { prog.pop(); prog.pop(); }
    decide(&[], &prog, M);
    witness("end");
}

/// a loop inside a loop, in every position, optionally inside a conditional of the outer loop
#[no_mangle]
pub extern "C" fn h_nested() {
    let (a, b) = (below(param(0)) as u8, below(param(0)) as u8);
    let inner = S::Loop(vec![S::Log(b'i'), S::ExitIf(eq(b'm', b)), S::Show(b'm'), S::Set(b'm', E::Inc(b'm'))]);
    let inner = vec![S::Set(b'm', E::Num(0)), inner, S::Log(b'j')];
    let inner = match choose(4) {
        0 => inner,
        1 => vec![S::If(vec![(eq(b'n', 1), inner)], None)],
        2 => vec![S::If(vec![(eq(b'n', 1), vec![S::Log(b'p')])], Some(inner))],
        _ => vec![S::If(vec![(eq(b'n', 0), vec![S::Log(b'p')]), (eq(b'n', 1), inner)], Some(vec![S::Log(b'q')]))],
    };
    let mut body = vec![];
    let exit_last = flag();
    if !exit_last { body.push(S::ExitIf(eq(b'n', a))); }
    body.push(S::Log(b'o'));
    body.extend(inner);
    body.push(S::Show(b'n'));
    if exit_last { body.push(S::ExitIf(eq(b'n', a))); }
    body.push(S::Set(b'n', E::Inc(b'n')));
    let prog = vec![S::Set(b'n', E::Num(0)), S::Loop(body), S::Log(b'z')];
    decide(&[], &prog, M);
    witness("end");
}

/// exits that stand inside conditionals of the loop, and several exits in one loop
#[no_mangle]
pub extern "C" fn h_exit_in_if() {
    let (a, b, c) = (below(param(0)) as u8, below(param(0)) as u8, below(3) as u8);
    let shape = choose(4);
    let ex = |v: u8, n: u8| S::ExitIf(eq(v, n));
    let mid = match shape {
        0 => S::If(vec![(eq(b'n', a), vec![S::Log(b'b'), ex(b'c', 1), S::Log(b'c')])], None),
        1 => S::If(vec![(eq(b'c', 0), vec![S::Log(b'b')])], Some(vec![S::Log(b'c'), ex(b'n', a), S::Log(b'd')])),
        2 => S::If(vec![(eq(b'c', 0), vec![ex(b'n', a)]), (eq(b'c', 1), vec![S::If(vec![(eq(b'n', a), vec![S::Log(b'e'), ex(b'n', a)])], None)])], None),
        _ => S::If(vec![(eq(b'n', a), vec![S::Loop(vec![S::Log(b'e'), S::ExitIf(C::Eq(E::Num(1), E::Num(1))), S::Log(b'f')]), ex(b'c', 2)])], Some(vec![S::Log(b'g')])),
    };
    let body = vec![S::Log(b'a'), mid, ex(b'n', b), S::Set(b'n', E::Inc(b'n'))];
    let after = S::If(vec![(eq(b'n', b), vec![S::Log(b'x')])], Some(vec![S::Log(b'y')]));
    let prog = vec![S::Set(b'c', E::Num(c)), S::Set(b'n', E::Num(0)), S::Loop(body), S::Show(b'n'), after, S::Log(b'z')];
    decide(&[], &prog, M);
    witness("end");
}

/// two loops one after the other, either of them inside a branch
#[no_mangle]
pub extern "C" fn h_sequence() {
    let (a, b, c) = (below(param(0)) as u8, below(param(0)) as u8, below(2) as u8);
    let lp = |v: u8, n: u8, k: u8| vec![S::Set(v, E::Num(0)), S::Loop(vec![S::ExitIf(eq(v, n)), S::Log(k), S::Set(v, E::Inc(v))]), S::Log(k + 1)];
    let wrap = |w: usize, x: Vec<S>| match w { 0 => x, 1 => vec![S::If(vec![(eq(b'c', 1), x)], None)], _ => vec![S::If(vec![(eq(b'c', 0), vec![S::Log(b'w')])], Some(x))] };
    let mut prog = vec![S::Set(b'c', E::Num(c))];
    prog.extend(wrap(choose(3), lp(b'm', a, b'a')));
    prog.extend(wrap(choose(3), lp(b'n', b, b'e')));
    prog.push(S::Log(b'z'));
    decide(&[], &prog, M);
    witness("end");
}

/// a walk over the records with the leave-after-last option visits every record once
#[no_mangle]
pub extern "C" fn h_walk() {
    let n = choose(param(0));
    let fwd = flag();
    let mut f = file_with(&[("T", &["f"]), ("U", &["g"])]);
    let mut src = String::from("go_to_layout(\"U\");\n");
    let mut vals = vec![];
    for _ in 0..n {
        let b = one_of(b"abcdefgh");
        src.push_str("new_record_request(); set_field(U::g, \""); src.push(b as char); src.push_str("\");\n");
        vals.push(b);
    }
    let (a, d) = if fwd { ("first", "next") } else { ("last", "previous") };
    src.push_str("go_to_record(\""); src.push_str(a); src.push_str("\");\nloop {\n");
    src.push_str("set_variable(v, U::g); go_to_layout(\"T\"); new_record_request(); set_field(T::f, v); go_to_layout(\"U\");\n");
    src.push_str("go_to_record(\""); src.push_str(d); src.push_str("\", \"true\");\n}\n");
    src.push_str("go_to_layout(\"T\"); new_record_request(); set_field(T::f, \"z\");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = crate::testing::test::TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let mut want: Vec<Vec<u8>> = vals.iter().map(|b| vec![b'"', *b, b'"']).collect();
    if !fwd { want.reverse(); }
    if n == 0 { want.push(vec![]); }
    want.push(b"\"z\"".to_vec());
    check_values(&te, &want, "the walk over the records did not visit each record once and end");
    witness("end");
}
