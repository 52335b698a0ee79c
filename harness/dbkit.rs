//! A record database driven by scripts, and what its steps mean, over plain lists.
//! Tables T (fields f, g) and U (field h); occurrences T and S show table T, occurrence U shows table U; one layout per occurrence.
//! Table L collects what the scripts read.
#![allow(dead_code)]
use crate::rt::*;
use crate::hx_vmkit::*;
use crate::component::*;
use crate::file::FmpFile;
use crate::testing::test::TestEnvironment;

pub type Val = Vec<u8>;
pub const OCC: [&str; 3] = ["T", "S", "U"];
pub const OCC_TABLE: [usize; 3] = [0, 0, 1];
pub const FIELDS: [&[&str]; 2] = [&["f", "g"], &["h"]];

#[derive(Clone)]
pub enum Go { First, Last, Next, Prev, N(u8) }
#[derive(Clone)]
pub enum Op { Layout(usize), New, Set(usize, usize, Val), Nav(Go), Find(usize, Val), ShowAll, Log(usize, usize) }

pub struct Model { pub recs: Vec<Vec<Vec<Val>>>, pub found: Vec<Vec<usize>>, pub pos: Vec<usize>, pub cur: usize, pub log: Vec<Val> }
impl Model {
    pub fn new() -> Model { Model { recs: vec![vec![], vec![]], found: vec![vec![]; 3], pos: vec![0; 3], cur: 0, log: vec![] } }
    /// the record an occurrence stands on
    pub fn here(&self, o: usize) -> Option<usize> { self.found[o].get(self.pos[o]).copied() }
    pub fn apply(&mut self, op: &Op) {
        let c = self.cur;
        match op {
            Op::Layout(o) => self.cur = *o,
            Op::New => {
                let t = OCC_TABLE[c];
                self.recs[t].push(vec![vec![]; FIELDS[t].len()]);
                let id = self.recs[t].len() - 1;
                for o in 0..3 { if OCC_TABLE[o] == t { self.found[o].push(id); self.pos[o] = self.found[o].len() - 1; } }
            }
            Op::Set(o, f, v) => { let r = self.here(*o).unwrap(); self.recs[OCC_TABLE[*o]][r][*f] = v.clone(); }
            Op::Nav(g) => {
                let n = self.found[c].len();
                let last = if n == 0 { 0 } else { n - 1 };
                let p = self.pos[c];
                self.pos[c] = match g { Go::First => 0, Go::Last => last, Go::Next => if p < last { p + 1 } else { p }, Go::Prev => if p > 0 { p - 1 } else { 0 }, Go::N(k) => if (*k as usize) < last { *k as usize } else { last } };
            }
            Op::Find(f, v) => {
                let t = OCC_TABLE[c];
                let hit: Vec<usize> = (0..self.recs[t].len()).filter(|r| self.recs[t][*r][*f] == *v).collect();
                if hit.is_empty() { self.found[c] = (0..self.recs[t].len()).collect(); } else { self.found[c] = hit; self.pos[c] = 0; }
            }
            Op::ShowAll => { let t = OCC_TABLE[c]; self.found[c] = (0..self.recs[t].len()).collect(); }
            Op::Log(o, f) => { let v = match self.here(*o) { Some(r) => self.recs[OCC_TABLE[*o]][r][*f].clone(), None => vec![] }; self.log.push(v); }
        }
    }
}
fn val(v: &Val, o: &mut String) { for b in v { o.push(*b as char); } }
fn field(occ: usize, f: usize, o: &mut String) { o.push_str(OCC[occ]); o.push_str("::"); o.push_str(FIELDS[OCC_TABLE[occ]][f]); }
/// the steps of a sequence of operations; `cur` is the occurrence shown when it starts
pub fn text(ops: &[Op], o: &mut String) {
    let mut cur = 0;
    for op in ops {
        match op {
            Op::Layout(k) => { cur = *k; o.push_str("go_to_layout(\""); o.push_str(OCC[*k]); o.push_str("\");\n"); }
            Op::New => o.push_str("new_record_request();\n"),
            Op::Set(k, f, v) => { o.push_str("set_field("); field(*k, *f, o); o.push_str(", "); val(v, o); o.push_str(");\n"); }
            Op::Nav(g) => {
                o.push_str("go_to_record(");
                match g { Go::First => o.push_str("\"first\""), Go::Last => o.push_str("\"last\""), Go::Next => o.push_str("\"next\""), Go::Prev => o.push_str("\"previous\""), Go::N(k) => o.push((b'0' + *k) as char) }
                o.push_str(");\n");
            }
            Op::Find(f, v) => { o.push_str("enter_find_mode();\nset_field("); field(cur, *f, o); o.push_str(", "); val(v, o); o.push_str(");\nperform_find();\n"); }
            Op::ShowAll => o.push_str("show_all_records();\n"),
            Op::Log(k, f) => {
                o.push_str("set_variable(v, "); field(*k, *f, o); o.push_str(");\ngo_to_layout(\"L\");\nnew_record_request();\nset_field(L::v, v);\ngo_to_layout(\""); o.push_str(OCC[cur]); o.push_str("\");\n");
            }
        }
    }
}
pub fn db_file() -> FmpFile {
    let mut f = file_with(&[("T", &["f", "g"]), ("U", &["h"]), ("L", &["v"])]);
    add_occurrence(&mut f, 4, "S", 1);
    f
}
pub fn add_occurrence(f: &mut FmpFile, id: usize, name: &str, table: u16) {
    let mut o = FMComponentTableOccurence::new();
    o.table_occurence_name = name.to_string();
    o.table_actual = table;
    f.table_occurrences.insert(id, o);
    let mut l = FMComponentLayout::new();
    l.layout_name = name.to_string();
    l.table_occurrence = id;
    f.layouts.insert(id, l);
}
/// what is read at the end: the current record of every occurrence, then every occurrence's found set from first to last
pub fn read_out(m: &Model, ops: &mut Vec<Op>) {
    let mut sim = Model { recs: m.recs.clone(), found: m.found.clone(), pos: m.pos.clone(), cur: m.cur, log: vec![] };
    let mut more = vec![];
    for o in 0..3 { for f in 0..FIELDS[OCC_TABLE[o]].len() { more.push(Op::Log(o, f)); } }
    for o in 0..3 {
        more.push(Op::Layout(o));
        more.push(Op::Nav(Go::First));
        // one step beyond the last record: the walk must stay on it
        for _ in 0..sim.found[o].len() + 1 { more.push(Op::Log(o, 0)); more.push(Op::Nav(Go::Next)); }
    }
    for x in &more { sim.apply(x); }
    ops.extend(more);
}
/// run the operations on the real code and compare everything read, and the tables' records, with the meaning
pub fn decide(mut ops: Vec<Op>, m: &str) {
    let mut model = Model::new();
    for x in &ops { model.apply(x); }
    let k = ops.len();
    read_out(&model, &mut ops);
    for x in &ops[k..] { model.apply(x); }
    let mut src = String::new();
    text(&ops, &mut src);
    let mut f = db_file();
    add_tests(&mut f, &test_src("a", &src));
    let mut te = TestEnvironment::new(&f);
    te.generate_test_environment();
    te.run_tests();
    let log = column(&te, "L", 0);
    for g in &log { observe(g.as_bytes()); }
    check(log.len() == model.log.len(), m);
    for (g, w) in log.iter().zip(&model.log) { check(g.as_bytes() == &w[..], m); }
    for (t, name) in ["T", "U"].iter().enumerate() {
        for i in 0..FIELDS[t].len() {
            let c = column(&te, name, i);
            check(c.len() == model.recs[t].len(), "a table does not hold the records created in it");
            for (r, v) in c.iter().enumerate() { check(v.as_bytes() == &model.recs[t][r][i][..], "a stored value is not the last one set"); }
        }
    }
}
pub fn quoted(b: u8) -> Val { vec![b'"', b, b'"'] }
/// `n` records in the current occurrence's table, field 0 holding the given letters
pub fn fill(ops: &mut Vec<Op>, occ: usize, vals: &[u8]) {
    ops.push(Op::Layout(occ));
    for v in vals { ops.push(Op::New); ops.push(Op::Set(occ, 0, quoted(*v))); }
}
