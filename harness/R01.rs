//! Creating records: one blank record more in the shown occurrence's table, which becomes current in every occurrence of that table.
use crate::rt::*;
use crate::hx_dbkit::*;
const M: &str = "a created record is not the current one of its table's occurrences, or disturbed something else";

/// any sequence of layout changes, creations and assignments
#[no_mangle]
pub extern "C" fn h_create() {
    let mut ops = vec![];
    let mut m = Model::new();
    let mut names = *b"abcdefgh";
    for i in 0..param(0) {
        let op = match choose(3) {
            0 => Op::Layout(choose(3)),
            1 => Op::New,
            _ => { let o = choose(3); assume(m.here(o).is_some()); Op::Set(o, choose(FIELDS[OCC_TABLE[o]].len()), quoted(names[i])) }
        };
        m.apply(&op);
        ops.push(op);
    }
    decide(ops, M);
    witness("end");
}
/// a record created while an occurrence shows only found records joins its found set at the end
#[no_mangle]
pub extern "C" fn h_in_found_set() {
    let n = 1 + choose(param(0));
    let vals: Vec<u8> = (0..n).map(|_| one_of(b"ab")).collect();
    let mut ops = vec![];
    let o = choose(2);
    fill(&mut ops, o, &vals);
    ops.push(Op::Find(0, quoted(b'a')));
    if flag() { ops.push(Op::Nav(Go::Last)); }
    if flag() { ops.push(Op::Layout(1 - o)); }
    ops.push(Op::New);
    if flag() { ops.push(Op::Set(o, 0, quoted(b'n'))); }
    if flag() { ops.push(Op::Nav(Go::Prev)); }
    decide(ops, M);
    witness("end");
}
