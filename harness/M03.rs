//! Decompiling on the command line.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::hx_jsonkit::*;

fn step(code: u8, n: u8) -> Vec<u8> { let mut v = vec![0u8; 28]; v[2] = n; v[21] = code; v }
/// a file with an object of every kind
pub fn sample(x: u8) -> Vec<u8> {
    let mut w = W::new();
    w.path(&[3, 16, 5, 129]); w.kv(16, &enc(&[b'T', x])); w.up(4);
    w.path(&[3, 17, 5, 2]); w.kv(2, &[0, 0, 0, 0, 0, 0, 1, 0]); w.kv(16, &enc(&[b'O', x])); w.up(4);
    w.path(&[4, 1, 7, 3]); w.kv(2, &[0, 130, 0]); w.kv(16, &enc(&[b'L', x])); w.up(4);
    w.path(&[17, 1, 1, 4]); w.kv(16, &enc(&[b'S', x])); w.up(4);
    w.path(&[129, 3, 5, 5]); w.kv(16, &enc(&[b'F', x])); w.up(4);
    w.path(&[32, 5, 6]); w.kv(16, &enc(&[b'D', x])); w.up(3);
    simple(vec![w.b])
}
/// the report of a decompiled file
#[no_mangle]
pub extern "C" fn h_decompile() {
    let x = printable();
    let path = ["s.fmp12", "s", "a/s.x.fmp12", "s.log"][choose(4)];
    file_put(path, &sample(x));
    file_put("other.fmp12", &sample(b'!'));
    let t = b"test te:\n script: [ define run() { assert(1 == 1); } ],\nend test;\n";
    file_put("t.burn", t);
    match choose(6) {
        0 => run_main(&["-d", path]),
        1 => run_main(&["--print-header", "-d", path]),
        2 => run_main(&["-d", path, "--no-testing"]),
        3 => run_main(&["--print-header", "-t", "t.burn", "-d", path]),
        4 => run_main(&["-t", "t.burn", "-d", path]),
        _ => run_main(&["-d", "other.fmp12", "-d", path]),
    };
    let b = match file_get("inspect_output/test_decompile", 65536) { Some(b) => b, None => fail("no report is written") };
    let v = report(&b);
    let named = |c: u8| string(vec![c, x]);
    v.get("tables").len(1);
    let t = v.get("tables").get("1");
    t.get("table_name").is(&named(b'T'));
    t.get("fields").len(1);
    t.get("fields").get("5").get("field_name").is(&named(b'F'));
    v.get("table_occurrences").len(1);
    v.get("table_occurrences").get("2").get("table_occurence_name").is(&named(b'O'));
    v.get("layouts").len(1);
    v.get("layouts").get("3").get("layout_name").is(&named(b'L'));
    v.get("scripts").len(1);
    v.get("scripts").get("4").get("script_name").is(&named(b'S'));
    v.get("data_sources").len(1);
    v.get("data_sources").get("6").get("source_name").is(&named(b'D'));
    v.get("relationships").len(0);
    v.get("tests").len(0);
    check(file_get(path, 65536).map_or(false, |b| b == sample(x)), "the file itself is changed");
    witness("end");
}
