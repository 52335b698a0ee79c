//! Tests on the command line.
use crate::rt::*;
use crate::hx_M01::*;

fn text(t: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(t) } }

const NAMES: [&str; 5] = ["first", "second", "third", "fourth", "fifth"];
/// a test's declaration and whether it succeeds; only the last one of all may fail
fn test(i: usize, last: bool) -> (String, bool) {
    let d = if last { one_of(b"67") } else { b'7' };
    (format!("test {}:\n script: [ define run_{}() {{ set_variable(x, {}); assert(x == 7); }} ],\nend test;\n", NAMES[i], i, d as char), d == b'7')
}
const BASE: &str = "table a:\n f: Text,\nend table;\ntable_occurence a:\n table: a,\nend table_occurence;\n";
fn outcomes(out: &[String], want: &[(usize, bool)]) {
    let l: Vec<&String> = out.iter().filter(|l| l.contains("outcome")).collect();
    check(l.len() == want.len(), "another number of tests is run");
    for (x, (i, ok)) in l.iter().zip(want) {
        observe(x.as_bytes());
        check(x.contains(NAMES[*i]), "a test is run in another place");
        check(x.contains("Success") == *ok && x.contains("Fail") != *ok, "a test has another outcome");
    }
}
/// the tests of the -t sources, then those of the source, unless told not to
#[no_mangle]
pub extern "C" fn h_tests() {
    let (a, b, c) = (choose(param(0) + 1), choose(param(0) + 1), choose(param(0) + 1));
    let (two, off, file) = (flag(), flag(), flag());
    let n = a + c + if two { b } else { 0 };
    if n > 5 { reject("harness: more tests"); }
    let mut want = vec![];
    let mut src = vec![String::new(), String::new(), if file { String::new() } else { BASE.to_string() }];
    for (k, m) in [(0, a), (1, if two { b } else { 0 }), (2, if file { 0 } else { c })] {
        for _ in 0..m { let i = want.len(); let (t, ok) = test(i, i + 1 == if file { n - c } else { n }); src[k].push_str(&t); want.push((i, ok)); }
    }
    file_put("x.burn", src[0].as_bytes());
    file_put("y.burn", src[1].as_bytes());
    let mut args = vec!["-t", "x.burn"];
    if two { args.push("-t"); args.push("y.burn"); }
    // against a compiled source, or a decompiled file
    if file { file_put("s.fmp12", &crate::hx_M03::sample(b'x')); args.push("-d"); args.push("s.fmp12"); }
    else { file_put("s.burn", src[2].as_bytes()); args.push("-c"); args.push("s.burn"); }
    if file && flag() { args.insert(choose(2) * 2, "--print-header"); }
    if off { args.push("--no-testing"); }
    let out = run_main(&args);
    outcomes(&out, if off { &[] } else { &want });
    witness("end");
}
/// many tests in one source, any one of them failing, or all of them succeeding
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let given = flag();
    let bad = [n, n - 1, n - 2, 255][choose(4)];
    let d = one_of(b"67");
    let name = |i: usize| text(&crate::hx_burnkit::nth_name(i)).to_string();
    let mut src = String::new();
    for i in 0..n { src.push_str(&format!("test t{}:\n script: [ define r{}() {{ set_variable(x, {}); assert(x == 7); }} ],\nend test;\n", name(i), name(i), if i == bad { d as char } else { '7' })); }
    let out = if given {
        file_put("x.burn", src.as_bytes());
        file_put("s.burn", BASE.as_bytes());
        run_main(&["-t", "x.burn", "-c", "s.burn"])
    } else {
        file_put("s.burn", format!("{}{}", BASE, src).as_bytes());
        run_main(&["-c", "s.burn"])
    };
    let l: Vec<&String> = out.iter().filter(|l| l.contains("outcome")).collect();
    // what runs after a failing test is V04's
    let upto = if bad < n && d != b'7' { bad + 1 } else { n };
    check(l.len() >= upto && l.len() <= n, "another number of tests is run");
    for i in 0..upto {
        let ok = i != bad || d == b'7';
        if i == bad { observe(l[i].as_bytes()); }
        check(l[i].contains("Success") == ok && l[i].contains("Fail") != ok, "a test has another outcome");
        check(l[i].contains(&format!("t{}", name(i))), "a test is run in another place");
    }
    witness("end");
}
