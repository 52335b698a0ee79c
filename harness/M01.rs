//! The program as a whole: what its command line is asked for is done.
use crate::rt::*;
use crate::hx_asmkit;
use crate::hx_burnkit::*;
use crate::hx_jsonkit::*;

fn text(t: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(t) } }
/// the objects of a source in its report
pub fn expect_report(v: &V, w: &Want) {
    v.get("tables").len(w.tables.len());
    for (i, n) in w.tables.iter().enumerate() { v.get("tables").get(&(i + 1).to_string()).get("table_name").is(text(n)); }
    v.get("value_lists").len(w.lists.len());
    for (i, n) in w.lists.iter().enumerate() { v.get("value_lists").get(&(i + 1).to_string()).get("list_name").is(text(n)); }
    v.get("table_occurrences").len(w.occurrences.len());
    for (i, (n, t)) in w.occurrences.iter().enumerate() { let o = v.get("table_occurrences").get(&i.to_string()); o.get("table_occurence_name").is(text(n)); o.get("table_actual_name").is(text(t)); }
    v.get("relationships").len(w.relationships.len());
    for (i, (a, b)) in w.relationships.iter().enumerate() { let r = v.get("relationships").get(&(i + 1).to_string()); r.get("table1_name").is(text(a)); r.get("table2_name").is(text(b)); }
    v.get("scripts").len(w.scripts.len());
    for (i, n) in w.scripts.iter().enumerate() { v.get("scripts").get(&(i + 1).to_string()).get("script_name").is(text(n)); }
    v.get("tests").len(w.tests.len());
    for (i, (n, s)) in w.tests.iter().enumerate() { v.get("tests").at(i).get("test_name").is(text(n)); v.get("tests").at(i).get("script").get("script_name").is(text(s)); }
}
/// the tables and occurrences of a source in its assembled file
pub fn expect_assembled(b: &[u8], stem: &str, w: &Want) {
    check(b.len() > 8192 && b[3082..].starts_with(format!("{}/", stem).as_bytes()), "the file has another name");
    let (v, dirs) = hx_asmkit::items(b, 2);
    let t: Vec<(usize, Vec<u8>)> = w.tables.iter().enumerate().map(|(i, n)| (i + 1, hx_asmkit::stored(n))).collect();
    let o: Vec<(usize, Vec<u8>)> = w.occurrences.iter().enumerate().map(|(i, (n, _))| (i, hx_asmkit::stored(n))).collect();
    hx_asmkit::expect_tables(&v, &dirs, &t);
    hx_asmkit::expect_occurrences(&v, &o);
}
fn read(n: &str, what: &str) -> Vec<u8> { match file_get(n, 65536) { Some(v) => v, None => fail(what) } }
fn source(n: usize, k: &[&str]) -> (Vec<u8>, Want) {
    let (mut s, mut w) = (S::new(), Want::default());
    for i in 0..choose(n + 1) {
        let (a, b) = (k[i * 2].as_bytes().to_vec(), k[i * 2 + 1].as_bytes().to_vec());
        declare(&mut s, &mut w, choose(6), a, b);
    }
    (s.t, w)
}
/// a source is reported and assembled, under its own name, wherever it lies
#[no_mangle]
pub extern "C" fn h_compile() {
    let (t, w) = source(param(0), &["aj", "za", "jj", "za_", "zz", "a"]);
    let (path, stem) = [("n.burn", "n"), ("n.burn.burn", "n.burn"), ("a.b.burn", "a.b"), ("inspect_output/deep.burn", "deep"), ("./x_1.burn", "x_1")][choose(5)];
    file_put(path, &t);
    // a test runs in a file without occurrences only when told not to
    let f = flag();
    let args = if f { ["-c", path, "--no-testing"] } else { ["--no-testing", "-c", path] };
    run_main(&args);
    expect_report(&report(&read("inspect_output/test_compile", "no report is written")), &w);
    expect_assembled(&read(&format!("{}.fmp12", stem), "no file is assembled"), stem, &w);
    witness("end");
}
/// each of several sources is compiled to a file of its own
#[no_mangle]
pub extern "C" fn h_several() {
    let n = param(0);
    let kinds: Vec<usize> = (0..n).map(|_| choose(6)).collect();
    let all = ["aj", "za", "jj", "za_", "zz", "a", "ja", "z_", "jz", "_aj", "az", "j"];
    let mut src = vec![];
    for f in 0..2 {
        let (mut s, mut w) = (S::new(), Want::default());
        for i in 0..n { declare(&mut s, &mut w, kinds[i], all[(f * 3 + i) * 2].as_bytes().to_vec(), all[(f * 3 + i) * 2 + 1].as_bytes().to_vec()); }
        src.push((s.t, w));
    }
    file_put("one.burn", &src[0].0);
    file_put("two.burn", &src[1].0);
    run_main(&["-c", "one.burn", "-c", "two.burn", "--no-testing"]);
    expect_assembled(&read("one.fmp12", "the first file is not assembled"), "one", &src[0].1);
    expect_assembled(&read("two.fmp12", "the second file is not assembled"), "two", &src[1].1);
    witness("end");
}
/// the n-th of many names of a few letters
fn letters(i: usize) -> Vec<u8> { let (mut v, mut k) = (vec![b'a'], i); for _ in 0..5 { v.push(b"ajz"[k % 3]); k /= 3; } v }
/// a source of many declarations of one kind or all kinds
#[no_mangle]
pub extern "C" fn h_large() {
    let n = param(0);
    let kind = choose(7);
    let (mut s, mut w) = (S::new(), Want::default());
    for i in 0..n { declare(&mut s, &mut w, if kind < 6 { kind } else { i % 6 }, letters(2 * i), letters(2 * i + 1)); }
    let file = "a_name_of_many_letters.burn";
    file_put(file, &s.t);
    run_main(&["-c", file, "--no-testing"]);
    expect_report(&report(&file_get("inspect_output/test_compile", 1 << 20).unwrap_or(vec![])), &w);
    expect_assembled(&read("a_name_of_many_letters.fmp12", "no file is assembled"), "a_name_of_many_letters", &w);
    witness("end");
}
