//! Related lookups: the value comes from the first record, in creation order, that the relationships join to the current record.
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::component::*;
use crate::file::FmpFile;
use crate::testing::test::TestEnvironment;

const M: &str = "a related lookup did not give the first joined record's value";
fn cmp(i: usize) -> RelationComparison {
    match i { 0 => RelationComparison::Equal, 1 => RelationComparison::NotEqual, 2 => RelationComparison::Less, 3 => RelationComparison::LessEqual, 4 => RelationComparison::Greater, 5 => RelationComparison::GreaterEqual, _ => RelationComparison::Cartesian }
}
/// does the relationship join a value of its left field with one of its right field
fn joins(i: usize, l: u32, r: u32) -> bool { match i { 0 => l == r, 1 => l != r, 2 => l < r, 3 => l <= r, 4 => l > r, 5 => l >= r, _ => true } }
fn relate(f: &mut FmpFile, id: usize, a: usize, fa: usize, b: usize, fb: usize, c: usize) {
    let mut r = FMComponentRelationship::new();
    r.table1 = a as _; r.field1 = fa as _; r.table2 = b as _; r.field2 = fb as _; r.comparison = cmp(c);
    f.relationships.insert(id, r);
}
fn digit(v: u32, o: &mut String) { o.push((b'0' + v as u8) as char); }
/// records of one occurrence: (key, mark) pairs; field 0 holds the key, field 1 a letter, unless swapped
fn fill(occ: &str, names: [&str; 2], recs: &[(u32, u8)], o: &mut String) {
    o.push_str("go_to_layout(\""); o.push_str(occ); o.push_str("\");\n");
    for (k, m) in recs {
        o.push_str("new_record_request();\nset_field("); o.push_str(occ); o.push_str("::"); o.push_str(names[0]); o.push_str(", "); digit(*k, o);
        o.push_str(");\nset_field("); o.push_str(occ); o.push_str("::"); o.push_str(names[1]); o.push_str(", \""); o.push(*m as char); o.push_str("\");\n");
    }
}
fn look(te: &mut TestEnvironment, occ: &str, field: &str) -> Option<String> { te.database.get_related_record_field(occ, field).ok() }
fn show(r: &Option<String>) { observe(match r { Some(s) => s.as_bytes(), None => b"none" }); }
fn same(got: &Option<String>, want: Option<u8>) { show(got); match (got, want) { (Some(g), Some(w)) => check(g.as_bytes() == &[b'"', w, b'"'], M), (None, None) => {} _ => fail(M) } }

/// one relationship, either side, any comparison, any keys, any current record
#[no_mangle]
pub extern "C" fn h_direct() {
    let (na, nb) = (1 + choose(param(0)), choose(param(0) + 1));
    let c = choose(7);
    let key = || (one_of(b"0123") - b'0') as u32;
    let a: Vec<(u32, u8)> = (0..na).map(|i| (key(), b'p' + i as u8)).collect();
    let b: Vec<(u32, u8)> = (0..nb).map(|i| (key(), b'x' + i as u8)).collect();
    let mut f = file_with(&[("A", &["ka", "va"]), ("B", &["vb", "kb"])]);
    let turned = flag();
    if turned { relate(&mut f, 1, 2, 1, 1, 0, c); } else { relate(&mut f, 1, 1, 0, 2, 1, c); }
    let mut src = String::new();
    fill("B", ["kb", "vb"], &b, &mut src);
    fill("A", ["ka", "va"], &a, &mut src);
    let at = choose(na);
    src.push_str("go_to_record("); digit(at as u32, &mut src); src.push_str(");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let got = look(&mut te, "B", "vb");
    let mut want = None;
    for (k, m) in &b { let j = if turned { joins(c, *k, a[at].0) } else { joins(c, a[at].0, *k) }; if j { want = Some(*m); break; } }
    same(&got, want);
    witness("end");
}
/// numbers of several digits compare by value
#[no_mangle]
pub extern "C" fn h_numbers() {
    let c = choose(7);
    let num = |d: u8, f: usize| -> (String, u32) { let mut s = String::new(); if f == 1 { s.push('1'); } s.push(d as char); (s, (d - b'0') as u32 + if f == 1 { 10 } else { 0 }) };
    let (a, x) = num(one_of(b"0123456789"), choose(2));
    let (b, y) = num(one_of(b"0123456789"), choose(2));
    let mut f = file_with(&[("A", &["k"]), ("B", &["k", "v"])]);
    relate(&mut f, 1, 1, 0, 2, 0, c);
    let mut src = String::from("go_to_layout(\"B\");\nnew_record_request();\nset_field(B::k, "); src.push_str(&b);
    src.push_str(");\nset_field(B::v, \"w\");\ngo_to_layout(\"A\");\nnew_record_request();\nset_field(A::k, "); src.push_str(&a); src.push_str(");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let got = look(&mut te, "B", "v");
    same(&got, if joins(c, x, y) { Some(b'w') } else { None });
    witness("end");
}
/// texts compare by their characters
#[no_mangle]
pub extern "C" fn h_texts() {
    let c = choose(7);
    let l = b"abcxyzABC";
    let (a, b) = (one_of(l), one_of(l));
    let mut f = file_with(&[("A", &["k"]), ("B", &["k", "v"])]);
    relate(&mut f, 1, 1, 0, 2, 0, c);
    let mut src = String::from("go_to_layout(\"B\");\nnew_record_request();\nset_field(B::k, \"m"); src.push(b as char);
    src.push_str("\");\nset_field(B::v, \"w\");\ngo_to_layout(\"A\");\nnew_record_request();\nset_field(A::k, \"m"); src.push(a as char); src.push_str("\");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let got = look(&mut te, "B", "v");
    same(&got, if joins(c, a as u32, b as u32) { Some(b'w') } else { None });
    witness("end");
}
/// two relationships in a row: A - B - C; each hop joins on its own fields
#[no_mangle]
pub extern "C" fn h_hops() {
    let n = param(0);
    let (c1, c2) = ([0, 2, 5, 1][choose(param(1))], [0, 4, 3, 6][choose(param(1))]);
    let key = || (one_of(b"012") - b'0') as u32;
    let a = key();
    let nb = choose(n + 1);
    let nc = choose(n + 1);
    let b: Vec<(u32, u32)> = (0..nb).map(|_| (key(), key())).collect();
    let c: Vec<(u32, u8)> = (0..nc).map(|i| (key(), b'u' + i as u8)).collect();
    let mut f = file_with(&[("A", &["k"]), ("B", &["k", "l"]), ("C", &["v", "l"])]);
    let turned = flag();
    relate(&mut f, 1, 1, 0, 2, 0, c1);
    if turned { relate(&mut f, 2, 3, 1, 2, 1, c2); } else { relate(&mut f, 2, 2, 1, 3, 1, c2); }
    let mut src = String::from("go_to_layout(\"B\");\n");
    for (k, l) in &b { src.push_str("new_record_request();\nset_field(B::k, "); digit(*k, &mut src); src.push_str(");\nset_field(B::l, "); digit(*l, &mut src); src.push_str(");\n"); }
    fill("C", ["l", "v"], &c, &mut src);
    src.push_str("go_to_layout(\"A\");\nnew_record_request();\nset_field(A::k, "); digit(a, &mut src); src.push_str(");\n");
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let got = look(&mut te, "C", "v");
    let mut want = None;
    'o: for (k, l) in &b { if joins(c1, a, *k) { for (m, v) in &c { let j = if turned { joins(c2, *m, *l) } else { joins(c2, *l, *m) }; if j { want = Some(*v); break 'o; } } } }
    same(&got, want);
    witness("end");
}
/// the shown occurrence's own field, and an occurrence without a relationship
#[no_mangle]
pub extern "C" fn h_self_or_none() {
    let (a, b) = (one_of(b"abc"), one_of(b"abc"));
    let mut f = file_with(&[("A", &["k"]), ("B", &["k"]), ("C", &["k"])]);
    relate(&mut f, 1, 2, 0, 3, 0, 0);
    let mut src = String::new();
    for (o, v) in [("B", b), ("C", b), ("A", a)] { src.push_str("go_to_layout(\""); src.push_str(o); src.push_str("\");\nnew_record_request();\nset_field("); src.push_str(o); src.push_str("::k, \""); src.push(v as char); src.push_str("\");\n"); }
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let got = look(&mut te, "A", "k");
    same(&got, Some(a));
    same(&look(&mut te, "B", "k"), None);
    same(&look(&mut te, "C", "k"), None);
    witness("end");
}
