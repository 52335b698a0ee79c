//! Tests use the objects of the program they are run against.
use crate::rt::*;
use crate::hx_fmpkit::*;

fn step(code: u8, n: u8) -> Vec<u8> { let mut v = vec![0u8; 28]; v[0] = 2; v[2] = n; v[21] = code; v }
/// tables A (k, f) and B (k, g), an occurrence and a layout of each, a relationship between them, a script that creates a record
fn database() -> Vec<u8> {
    let mut w = W::new();
    w.path(&[3, 16, 5]);
    for (id, n) in [(129usize, b"A"), (130, b"B")] { w.push(id); w.kv(16, &enc(n)); w.pop(); }
    w.up(3);
    for (t, n) in [(129usize, b"f"), (130, b"g")] {
        w.path(&[t, 3, 5]);
        w.push(1); w.kv(16, &enc(b"k")); w.pop();
        w.push(2); w.kv(16, &enc(n)); w.pop();
        w.up(3);
    }
    w.path(&[3, 17, 5]);
    for (id, t, n, other) in [(2usize, 1u8, b"Oa", 5u8), (5, 2, b"Ob", 2)] {
        w.push(id);
        w.kv(2, &[0, 0, 0, 0, 0, 0, t, 0]);
        w.kv(16, &enc(n));
        w.push(251); w.kv(other, &[0xd0, 0, other, 1, 7]); w.pop();
        w.pop();
    }
    w.up(3);
    w.path(&[3, 251, 5, 7]);
    w.up(4);
    w.path(&[4, 1, 7]);
    for (id, o, n) in [(3usize, 2u8, b"La"), (4, 5, b"Lb")] { w.push(id); w.kv(2, &[0, 128 + o, 0]); w.kv(16, &enc(n)); w.pop(); }
    w.up(3);
    w.path(&[17, 1, 1, 6]); w.kv(16, &enc(b"make")); w.up(4);
    w.path(&[17, 5, 6]); w.kv(4, &step(7, 1)); w.up(3);
    simple(vec![w.b])
}
fn verdict(out: &[String], ok: bool) {
    let l: Vec<&String> = out.iter().filter(|l| l.contains("outcome")).collect();
    check(l.len() == 1, "another number of tests is run");
    observe(l[0].as_bytes());
    check(l[0].contains("Success") == ok && l[0].contains("Fail") != ok, "a test does not see the program's own objects");
}
fn test(steps: &str) -> String { format!("test te:\n script: [ define run() {{ {} }} ],\nend test;\n", steps) }
/// the record created, what is stored in it and what it is compared with
fn record(make: &str, o: &str, f: &str, x: u8, y: u8) -> String { format!("{} set_field({}::{}, \"{}\"); assert({}::{} == \"{}\");", make, o, f, x as char, o, f, y as char) }
/// a test run against a decompiled file
#[no_mangle]
pub extern "C" fn h_decompiled() {
    let (x, y) = (one_of(b"abz"), one_of(b"abz"));
    let t = match choose(4) {
        0 => record("new_record_request();", "Oa", "f", x, y),
        1 => record("go_to_layout(\"Lb\"); new_record_request();", "Ob", "g", x, y),
        2 => record("perform_script(\"make\");", "Oa", "f", x, y),
        _ => record("go_to_layout(\"Lb\"); perform_script(\"make\"); go_to_layout(\"La\"); go_to_layout(\"Lb\");", "Ob", "g", x, y),
    };
    file_put("d.fmp12", &database());
    file_put("t.burn", test(&t).as_bytes());
    let out = match choose(3) {
        0 => run_main(&["-t", "t.burn", "-d", "d.fmp12"]),
        1 => run_main(&["-d", "d.fmp12", "-t", "t.burn"]),
        _ => run_main(&["--print-header", "-t", "t.burn", "-d", "d.fmp12"]),
    };
    verdict(&out, x == y);
    witness("end");
}
/// a test run against a compiled source, its own or another's, and calling its scripts
#[no_mangle]
pub extern "C" fn h_compiled() {
    let (x, y) = (one_of(b"abz"), one_of(b"abz"));
    let compare = |f: &str| format!("define {}() {{ set_variable(v, \"{}\"); assert(v == \"{}\"); }} ", f, x as char, y as char);
    let pass = |f: &str| format!("define {}() {{ set_variable(v, 1); }} ", f);
    // the script called is one of several
    let at = choose(3);
    let names = ["one", "two", "onetwo"];
    let mut list = String::new();
    let apart = flag();
    for i in 0..3 {
        if i > 0 && apart { list.push_str("]\nscript: [ "); }
        list.push_str(&if i == at { compare(names[i]) } else { pass(names[i]) });
    }
    let source = format!("table A:\n f: Text,\nend table;\ntable_occurence A:\n table: A,\nend table_occurence;\nscript: [ {} ]\n", list);
    let called = choose(3);
    let t = test(&format!("perform_script(\"{}\");", names[called]));
    let out = match choose(4) {
        0 => { file_put("s.burn", source.as_bytes()); file_put("t.burn", t.as_bytes()); run_main(&["-t", "t.burn", "-c", "s.burn"]) }
        1 => { file_put("s.burn", source.as_bytes()); file_put("t.burn", t.as_bytes()); run_main(&["-c", "s.burn", "-t", "t.burn"]) }
        2 => { file_put("s.burn", format!("{}{}", source, t).as_bytes()); run_main(&["-c", "s.burn"]) }
        _ => { file_put("s.burn", format!("{}{}", t, source).as_bytes()); run_main(&["-c", "s.burn"]) }
    };
    verdict(&out, called != at || x == y);
    witness("end");
}
