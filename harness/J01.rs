//! The report of a file: every object with every attribute, as JSON.
use crate::rt::*;
use crate::hx_jsonkit::*;
use crate::component::*;
use crate::file::FmpFile;
use crate::fm_script_engine::fm_script_engine_instructions::{Instruction, ScriptStep};

/// the texts of a file: plain ones, one of them any
struct T { k: usize, odd: usize, n: usize, at: usize }
impl T {
    fn s(&mut self) -> String {
        self.k += 1;
        if self.k == self.odd { return string(any(self.n)); }
        format!("t{}", self.k)
    }
}
/// any characters of one to four bytes
fn any(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..choose(n + 1) { match choose(4) {
        3 => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); v.extend_from_slice(&[0xf0, 0x9f, 0x98, b]); }
        0 => { let b = byte(); assume(b < 0x80); v.push(b); }
        1 => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); v.extend_from_slice(&[0xc5, b]); }
        _ => { let b = byte(); assume((b >= 0x80) & (b <= 0xbf)); v.extend_from_slice(&[0xe2, 0x80, b]); }
    } }
    v
}
fn step(t: &mut T, o: Instruction, i: usize, n: usize) -> ScriptStep { ScriptStep { opcode: o, index: i + t.at, switches: (0..n).map(|_| t.s()).collect() } }
fn script(t: &mut T, a: usize, ops: &[Instruction]) -> FMComponentScript {
    let mut x = FMComponentScript::new();
    x.script_name = t.s(); x.created_by_account = t.s(); x.create_by_user = t.s(); x.arguments = (0..a).map(|_| t.s()).collect();
    x.instructions = ops.iter().enumerate().map(|(i, o)| step(t, o.clone(), i * 3 + 1, i)).collect();
    x
}
fn expect_script(v: &V, s: &FMComponentScript) {
    v.get("script_name").is(&s.script_name); v.get("created_by_account").is(&s.created_by_account); v.get("create_by_user").is(&s.create_by_user);
    let a = v.get("arguments");
    a.len(s.arguments.len());
    for (i, x) in s.arguments.iter().enumerate() { a.at(i).is(x); }
    let n = v.get("instructions");
    n.len(s.instructions.len());
    for (i, x) in s.instructions.iter().enumerate() {
        n.at(i).get("opcode").is(&format!("{:?}", x.opcode)); n.at(i).get("index").num(x.index);
        n.at(i).get("switches").len(x.switches.len());
        for (k, w) in x.switches.iter().enumerate() { n.at(i).get("switches").at(k).is(w); }
    }
}
/// objects of every kind, every attribute any text
#[no_mangle]
pub extern "C" fn h_report() {
    let id = [1usize, 0, 129, 70000][choose(4)];
    let mut t = T { k: 0, odd: choose(60), n: param(0), at: id };
    let mut f = FmpFile::new();
    f.name = t.s();
    // numbers of every size
    let num = |k: u16| if id < 70000 { k } else { 65535 - k };
    let comp = choose(7);
    let cs = [RelationComparison::Equal, RelationComparison::NotEqual, RelationComparison::Less, RelationComparison::LessEqual, RelationComparison::Greater, RelationComparison::GreaterEqual, RelationComparison::Cartesian];
    let mut tab = FMComponentTable::new();
    tab.table_name = t.s(); tab.created_by_account = t.s(); tab.create_by_user = t.s();
    for i in [1u16, 300] { tab.fields.insert(i, { let mut x = FMComponentField::new(); x.data_type = t.s(); x.field_description = t.s(); x.field_name = t.s(); x.field_type = t.s(); x.created_by_account = t.s(); x.created_by_user = t.s(); x }); }
    f.tables.insert(id, tab.clone());
    let mut tab2 = FMComponentTable::new();
    tab2.table_name = t.s();
    f.tables.insert(id + 1, tab2.clone());
    let mut rel = FMComponentRelationship::new();
    rel.table1 = num(1); rel.table1_name = t.s(); rel.field1 = num(258); rel.table2 = num(3); rel.table2_name = t.s(); rel.field2 = num(4); rel.comparison = cs[comp].clone();
    f.relationships.insert(id, rel.clone());
    let mut lay = FMComponentLayout::new();
    lay.layout_name = t.s(); lay.table_occurrence = id * 3; lay.created_by_account = t.s(); lay.create_by_user = t.s();
    f.layouts.insert(id, lay.clone());
    let mut list = FMComponentValueList::new();
    list.list_name = t.s(); list.created_by_account = t.s(); list.create_by_user = t.s();
    f.value_lists.insert(id, list.clone());
    let s = script(&mut t, 2, &[Instruction::Loop, Instruction::SetVariable, Instruction::EndLoop]);
    f.scripts.insert(id, s.clone());
    let mut occ = FMComponentTableOccurence::new();
    occ.table_occurence_name = t.s(); occ.table_actual = num(129); occ.table_actual_name = t.s(); occ.created_by_account = t.s(); occ.create_by_user = t.s();
    f.table_occurrences.insert(id, occ.clone());
    let mut src = FMComponentDataSource::new();
    src.source_name = t.s(); src.source_location = SourceFileLocation::new(); src.source_location.source_type = t.s(); src.source_location.source_path = t.s(); src.source_location.source_filename = t.s(); src.created_by_account = t.s(); src.created_by_user = t.s();
    f.data_sources.insert(id, src.clone());
    for i in 0..2 { let mut x = FMComponentTest::new(); x.test_name = t.s(); x.script = script(&mut t, i, &[Instruction::Assert]); x.created_by_account = t.s(); x.create_by_user = t.s(); x.assertions = (0..i).map(|_| t.s()).collect(); f.tests.push(x); }
    check(t.k < 60, "harness: more texts");
    let j = match serde_json::to_string_pretty(&f) { Ok(j) => j, Err(_) => fail("no report is made") };
    let v = report(j.as_bytes());
    let key = id.to_string();
    v.get("name").is(&f.name);
    v.get("tables").len(2);
    let a = v.get("tables").get(&key);
    a.get("table_name").is(&tab.table_name); a.get("created_by_account").is(&tab.created_by_account); a.get("create_by_user").is(&tab.create_by_user);
    a.get("fields").len(2);
    for (i, x) in &tab.fields { let y = a.get("fields").get(&i.to_string()); y.get("data_type").is(&x.data_type); y.get("field_description").is(&x.field_description); y.get("field_name").is(&x.field_name); y.get("field_type").is(&x.field_type); y.get("created_by_account").is(&x.created_by_account); y.get("created_by_user").is(&x.created_by_user); }
    v.get("tables").get(&(id + 1).to_string()).get("table_name").is(&tab2.table_name);
    v.get("relationships").len(1);
    let a = v.get("relationships").get(&key);
    a.get("table1").num(num(1) as usize); a.get("field1").num(num(258) as usize); a.get("table2").num(num(3) as usize); a.get("field2").num(num(4) as usize); a.get("table1_name").is(&rel.table1_name); a.get("table2_name").is(&rel.table2_name); a.get("comparison").is(&format!("{:?}", rel.comparison));
    v.get("layouts").len(1);
    let a = v.get("layouts").get(&key);
    a.get("layout_name").is(&lay.layout_name); a.get("table_occurrence").num(id * 3); a.get("created_by_account").is(&lay.created_by_account); a.get("create_by_user").is(&lay.create_by_user);
    v.get("value_lists").len(1);
    let a = v.get("value_lists").get(&key);
    a.get("list_name").is(&list.list_name); a.get("created_by_account").is(&list.created_by_account); a.get("create_by_user").is(&list.create_by_user);
    v.get("scripts").len(1);
    expect_script(v.get("scripts").get(&key), &s);
    v.get("table_occurrences").len(1);
    let a = v.get("table_occurrences").get(&key);
    a.get("table_occurence_name").is(&occ.table_occurence_name); a.get("table_actual").num(num(129) as usize); a.get("table_actual_name").is(&occ.table_actual_name); a.get("created_by_account").is(&occ.created_by_account); a.get("create_by_user").is(&occ.create_by_user);
    v.get("data_sources").len(1);
    let a = v.get("data_sources").get(&key);
    a.get("source_name").is(&src.source_name); a.get("created_by_account").is(&src.created_by_account); a.get("created_by_user").is(&src.created_by_user);
    let b = a.get("source_location");
    b.get("source_type").is(&src.source_location.source_type); b.get("source_path").is(&src.source_location.source_path); b.get("source_filename").is(&src.source_location.source_filename);
    v.get("tests").len(2);
    for (i, x) in f.tests.iter().enumerate() {
        let y = v.get("tests").at(i);
        y.get("test_name").is(&x.test_name); y.get("created_by_account").is(&x.created_by_account); y.get("create_by_user").is(&x.create_by_user);
        expect_script(y.get("script"), &x.script);
        y.get("assertions").len(x.assertions.len());
        for (k, w) in x.assertions.iter().enumerate() { y.get("assertions").at(k).is(w); }
    }
    witness("end");
}
/// files without objects of some or all kinds
#[no_mangle]
pub extern "C" fn h_empty() {
    let mut f = FmpFile::new();
    f.name = "n".to_string();
    let has: Vec<bool> = (0..8).map(|_| flag()).collect();
    if has[0] { f.tables.insert(1, FMComponentTable::new()); }
    if has[1] { f.relationships.insert(1, FMComponentRelationship::new()); }
    if has[2] { f.layouts.insert(1, FMComponentLayout::new()); }
    if has[3] { f.value_lists.insert(1, FMComponentValueList::new()); }
    if has[4] { f.scripts.insert(1, FMComponentScript::new()); }
    if has[5] { f.table_occurrences.insert(1, FMComponentTableOccurence::new()); }
    if has[6] { f.data_sources.insert(1, FMComponentDataSource::new()); }
    if has[7] { f.tests.push(FMComponentTest::new()); }
    let j = match serde_json::to_string_pretty(&f) { Ok(j) => j, Err(_) => fail("no report is made") };
    let v = report(j.as_bytes());
    v.get("name").is("n");
    for (k, h) in ["tables", "relationships", "layouts", "value_lists", "scripts", "table_occurrences", "data_sources", "tests"].iter().zip(&has) { v.get(k).len(*h as usize); }
    if has[0] { let t = v.get("tables").get("1"); t.get("table_name").is(""); t.get("fields").len(0); }
    if has[4] { let s = v.get("scripts").get("1"); s.get("arguments").len(0); s.get("instructions").len(0); }
    if has[7] { let t = v.get("tests").at(0); t.get("assertions").len(0); t.get("script").get("instructions").len(0); }
    witness("end");
}
/// many objects of one kind with numbers far apart, and long texts
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let step_ = [1usize, 257][choose(2)];
    let ids: Vec<usize> = (0..n).map(|i| i * step_).collect();
    let c = byte();
    assume(c < 0x80);
    let long = |i: usize| { let mut v = vec![b'x'; if i % 64 == 63 { 300 } else { 3 }]; v.extend_from_slice(i.to_string().as_bytes()); if i % 100 == 99 { v.push(c); } string(v) };
    let mut f = FmpFile::new();
    f.name = long(63);
    let kind = choose(10);
    for (i, id) in ids.iter().enumerate() { match kind {
        0 => { let mut x = FMComponentTable::new(); x.table_name = long(i); f.tables.insert(*id, x); }
        1 => { let mut x = FMComponentRelationship::new(); x.table1 = i as u16; x.table2_name = long(i); f.relationships.insert(*id, x); }
        2 => { let mut x = FMComponentLayout::new(); x.layout_name = long(i); f.layouts.insert(*id, x); }
        3 => { let mut x = FMComponentValueList::new(); x.list_name = long(i); f.value_lists.insert(*id, x); }
        4 => { let mut x = FMComponentScript::new(); x.script_name = long(i); f.scripts.insert(*id, x); }
        5 => { let mut x = FMComponentTableOccurence::new(); x.table_occurence_name = long(i); f.table_occurrences.insert(*id, x); }
        6 => { let mut x = FMComponentDataSource::new(); x.source_name = long(i); f.data_sources.insert(*id, x); }
        7 => { let mut x = FMComponentTest::new(); x.test_name = long(i); f.tests.push(x); }
        8 => { let t = f.tables.entry(1).or_insert(FMComponentTable::new()); let mut x = FMComponentField::new(); x.field_name = long(i); t.fields.insert((*id % 65536) as u16, x); }
        _ => { let s = f.scripts.entry(1).or_insert(FMComponentScript::new()); s.arguments.push(long(i)); s.instructions.push(ScriptStep { opcode: if i % 2 == 0 { Instruction::SetVariable } else { Instruction::Assert }, index: i, switches: vec![long(i), long(i + 1)] }); }
    } }
    let j = match serde_json::to_string_pretty(&f) { Ok(j) => j, Err(_) => fail("no report is made") };
    let v = report(j.as_bytes());
    v.get("name").is(&f.name);
    let kinds = ["tables", "relationships", "layouts", "value_lists", "scripts", "table_occurrences", "data_sources", "tests"];
    for (k, name) in kinds.iter().enumerate() { if kind < 8 { v.get(name).len(if k == kind { n } else { 0 }); } }
    let is = |i: usize, y: &V| match kind {
        0 => y.get("table_name").is(&long(i)),
        1 => { y.get("table1").num(i); y.get("table2_name").is(&long(i)) }
        2 => y.get("layout_name").is(&long(i)),
        3 => y.get("list_name").is(&long(i)),
        4 => y.get("script_name").is(&long(i)),
        5 => y.get("table_occurence_name").is(&long(i)),
        6 => y.get("source_name").is(&long(i)),
        7 => y.get("test_name").is(&long(i)),
        8 => y.get("field_name").is(&long(i)),
        _ => { y.get("index").num(i); y.get("opcode").is(if i % 2 == 0 { "SetVariable" } else { "Assert" }); y.get("switches").len(2); y.get("switches").at(0).is(&long(i)); y.get("switches").at(1).is(&long(i + 1)); }
    };
    let group = match kind { 8 => v.get("tables").get("1").get("fields"), 9 => v.get("scripts").get("1").get("instructions"), k => v.get(kinds[k]) };
    group.len(n);
    for (i, id) in ids.iter().enumerate() { if kind == 7 || kind == 9 { is(i, group.at(i)) } else { is(i, group.get(&(if kind == 8 { *id % 65536 } else { *id }).to_string())) } }
    if kind == 9 { let a = v.get("scripts").get("1").get("arguments"); a.len(n); for i in 0..n { a.at(i).is(&long(i)); } }
    witness("end");
}
