//! Finds: a find shows exactly the matching records of the whole table, in creation order; show-all shows every record.
use crate::rt::*;
use crate::hx_dbkit::*;
const M: &str = "a find or show-all did not give the records it asks for";

/// any values, any criterion, whatever was found before
#[no_mangle]
pub extern "C" fn h_find() {
    let n = choose(param(0) + 1);
    let o = choose(3);
    let vals: Vec<u8> = (0..n).map(|_| one_of(b"abc")).collect();
    let mut ops = vec![];
    fill(&mut ops, o, &vals);
    let k = 1 + choose(2);
    for _ in 0..k {
        let v = one_of(b"abcd");
        ops.push(Op::Find(0, quoted(v)));
        // where a find without a match leaves the position is not part of the property
        if flag() { ops.push(Op::ShowAll); }
        ops.push(Op::Nav(if flag() { Go::First } else { Go::Last }));
    }
    decide(ops, M);
    witness("end");
}
/// after a match the first found record is current; only the shown occurrence's found set changes
#[no_mangle]
pub extern "C" fn h_first() {
    let n = 1 + choose(param(0));
    let vals: Vec<u8> = (0..n).map(|_| one_of(b"ab")).collect();
    let o = choose(2);
    let mut ops = vec![];
    fill(&mut ops, o, &vals);
    fill(&mut ops, 2, b"xyx");
    let on = choose(3);
    ops.push(Op::Layout(on));
    let v = if on == 2 { one_of(b"xy") } else { let w = one_of(b"ab"); let mut any = false; for x in &vals { any |= *x == w; } assume(any); w };
    ops.push(Op::Find(0, quoted(v)));
    ops.push(Op::Log(on, 0));
    decide(ops, M);
    witness("end");
}
/// the criterion applies to the named field only, and setting it in find mode stores nothing
#[no_mangle]
pub extern "C" fn h_field() {
    let n = 1 + choose(param(0));
    let mut ops = vec![Op::Layout(0)];
    for _ in 0..n { ops.push(Op::New); ops.push(Op::Set(0, 0, quoted(one_of(b"ab")))); ops.push(Op::Set(0, 1, quoted(one_of(b"ab")))); }
    ops.push(Op::Find(choose(2), quoted(one_of(b"ab"))));
    ops.push(Op::Nav(Go::First));
    decide(ops, M);
    witness("end");
}
/// numbers and longer texts are found by their whole value
#[no_mangle]
pub extern "C" fn h_whole() {
    let (a, b, c) = (one_of(b"0123456789"), one_of(b"0123456789"), one_of(b"0123456789"));
    let num = flag();
    let mk = |x: u8, y: u8| -> Val { if num { if x == b'0' { vec![y] } else { vec![x, y] } } else { vec![b'"', x, b' ', y, b'"'] } };
    let mut ops = vec![Op::Layout(0)];
    for (x, y) in [(a, b), (b, a), (b'1', b'2'), (b'2', b'1')] { ops.push(Op::New); ops.push(Op::Set(0, 0, mk(x, y))); ops.push(Op::Set(0, 1, quoted(b'q'))); }
    ops.push(Op::Find(0, mk(c, if flag() { a } else { b'1' })));
    ops.push(Op::Nav(Go::Last));
    decide(ops, M);
    witness("end");
}
