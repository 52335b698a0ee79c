//! Helpers shared by the script-engine harnesses: they build burn source text, run it through the real compiler and the
//! real test environment, and read back what a user can see (verdict lines, records).
#![allow(dead_code)]
use crate::rt::*;
use crate::component::*;
use crate::compile::compiler::compile_burn;
use crate::file::FmpFile;
use crate::testing::test::{TestEnvironment, TestState};

/// a file with one table per entry of `tables`, one occurrence and one layout of the same name for each
pub fn file_with(tables: &[(&str, &[&str])]) -> FmpFile {
    let mut f = FmpFile::new();
    for (i, (t, fields)) in tables.iter().enumerate() {
        let id = i + 1;
        let mut tab = FMComponentTable::new();
        tab.table_name = t.to_string();
        for (j, n) in fields.iter().enumerate() {
            let mut fd = FMComponentField::new();
            fd.field_name = n.to_string();
            tab.fields.insert(j as u16, fd);
        }
        f.tables.insert(id, tab);
        let mut o = FMComponentTableOccurence::new();
        o.table_occurence_name = t.to_string();
        o.table_actual = id as u16;
        o.table_actual_name = t.to_string();
        f.table_occurrences.insert(id, o);
        let mut l = FMComponentLayout::new();
        l.layout_name = t.to_string();
        l.table_occurrence = id;
        f.layouts.insert(id, l);
    }
    f
}

/// one test whose script has the given body
pub fn test_src(name: &str, body: &str) -> String {
    let mut s = String::new();
    s.push_str("test "); s.push_str(name); s.push_str(":\n script: [\n  define "); s.push_str(name); s.push_str("_main() {\n");
    s.push_str(body);
    s.push_str("\n  }\n ]\nend test;\n");
    s
}

pub fn add_tests(f: &mut FmpFile, src: &str) {
    let mut c = compile_burn(src);
    f.tests.append(&mut c.tests);
}

/// the values of one field of a table after a run
pub fn column(te: &TestEnvironment, table: &str, field: usize) -> Vec<String> {
    match te.database.get_table(table) { Some(t) => t.fields[field].records.clone(), None => vec![] }
}

/// a step sequence that leaves a mark: one more record of T whose field f holds the letter
pub fn log_text(k: u8, out: &mut String) {
    out.push_str("new_record_request();\nset_field(T::f, \""); out.push(k as char); out.push_str("\");\n");
}
/// the marks left, in order
pub fn check_log(te: &TestEnvironment, want: &[u8], m: &str) {
    let got = column(te, "T", 0);
    for g in &got { observe(g.as_bytes()); }
    check(got.len() == want.len(), m);
    for (g, w) in got.iter().zip(want) {
        let g = g.as_bytes();
        check(g.len() == 3 && g[1] == *w, m);
    }
}
pub fn run_all(te: &mut TestEnvironment) -> Vec<String> {
    color_print::take();
    te.run_tests();
    color_print::take()
}
