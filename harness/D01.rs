//! Tables and fields of a database file.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::component::*;
use crate::file::FmpFile;

/// keys of a field's entry and the values stored under them
const KEYS: [u8; 4] = [3, 16, 129, 130];
struct F { id: usize, v: [Vec<u8>; 4] }
struct Tb { id: usize, name: Vec<u8>, fields: Vec<F> }

fn store(w: &mut W, key: u8, v: &[u8], form: usize) { match form { 0 => w.kv(key, v), 1 => w.kv_fixed(key, v), _ => if key >= 128 { w.kv_e(key as usize, v) } else { w.kv(key, v) } } }
fn table_of<'a>(f: &'a FmpFile, id: usize) -> &'a FMComponentTable { match f.tables.get(&id) { Some(t) => t, None => fail("a table of the file is missing") } }
fn expect(f: &FmpFile, want: &[Tb]) {
    check(f.tables.len() == want.len(), "another number of tables");
    for t in want {
        let g = table_of(f, t.id);
        check(g.table_name.as_bytes() == &t.name[..], "a table has another name");
        check(g.fields.len() == t.fields.len(), "a table has another number of fields");
        for x in &t.fields {
            let h = match g.fields.get(&(x.id as u16)) { Some(h) => h, None => fail("a field of the file is missing") };
            check(h.field_description.as_bytes() == &x.v[0][..], "a field has another description");
            check(h.field_name.as_bytes() == &x.v[1][..], "a field has another name");
            check(h.created_by_account.as_bytes() == &x.v[2][..], "a field has another creating account");
            check(h.created_by_user.as_bytes() == &x.v[3][..], "a field has another creating user");
        }
    }
    check(f.scripts.is_empty() && f.layouts.is_empty() && f.relationships.is_empty() && f.table_occurrences.is_empty() && f.data_sources.is_empty(), "tables and fields made other objects appear");
}
/// several tables with several fields
#[no_mangle]
pub extern "C" fn h_schema() {
    let nt = 1 + choose(param(0));
    let ids = [[1usize, 2, 3], [129, 130, 1], [127, 128, 300]];
    let idset = choose(3);
    let mut want: Vec<Tb> = vec![];
    for t in 0..nt {
        let nf = choose(param(1) + 1);
        let mut fields = vec![];
        for i in 0..nf { fields.push(F { id: [1usize, 2, 200][i], v: [vec![], text(2), vec![], vec![]] }); }
        want.push(Tb { id: ids[idset][t], name: text(2), fields });
    }
    let mut w = W::new();
    w.path(&[3, 16, 5]);
    for t in &want { w.push(128 + t.id); w.kv(16, &enc(&t.name)); w.pop(); }
    w.up(3);
    for t in &want {
        w.push(128 + t.id); w.path(&[3, 5]);
        for x in &t.fields { w.push(x.id); w.kv(16, &enc(&x.v[1])); w.pop(); }
        w.up(3);
    }
    expect(&decompile(&simple(vec![w.b])), &want);
    witness("end");
}
/// everything stored about one field, in any order, stored in any form
#[no_mangle]
pub extern "C" fn h_field() {
    let mut v: [Vec<u8>; 4] = [vec![], vec![], vec![], vec![]];
    let mut w = W::new();
    w.path(&[3, 16, 5, 129]); w.kv(16, &enc(b"T")); w.up(4);
    w.path(&[129, 3, 5, 7]);
    let n = 1 + choose(param(0));
    let mut used = [false; 4];
    for _ in 0..n {
        let k = choose(4);
        if used[k] { reject("a key twice"); }
        used[k] = true;
        let len = 1 + choose(param(1));
        v[k] = text(len);
        let form = choose(3);
        store(&mut w, KEYS[k], &enc(&v[k]), form);
        // entries the result has no place for
        if flag() { let other = byte(); assume(other != 16 && other != 2 && other != 3 && other != 129 && other != 130); w.kv(other, &enc(b"zz")); }
    }
    w.up(4);
    expect(&decompile(&simple(vec![w.b])), &[Tb { id: 1, name: b"T".to_vec(), fields: vec![F { id: 7, v }] }]);
    witness("end");
}
/// numbers that agree in their low bits stay apart: two fields of a table, or fields of the same number in two tables, each with everything stored about it
#[no_mangle]
pub extern "C" fn h_apart() {
    let set = [1usize, 2, 129, 255, 256, 257, 513];
    let n = param(0);
    let (a, b) = (set[choose(n)], set[choose(n)]);
    if a == b { reject("two numbers"); }
    let fields = flag();
    let mut v: Vec<[Vec<u8>; 4]> = vec![];
    for _ in 0..2 { v.push([text(1), text(1), text(1), text(1)]); }
    // the entries of both interleaved or one after the other
    let turns = flag();
    let mut w = W::new();
    w.path(&[3, 16, 5]);
    for t in if fields { vec![1] } else { vec![a, b] } { w.push(128 + t); w.kv(16, &enc(b"T")); w.pop(); }
    w.up(3);
    for k in 0..if turns { 4 } else { 2 } {
        for i in 0..if turns { 2 } else { 1 } {
            let (i, keys) = if turns { (i, vec![k]) } else { (k, vec![0, 1, 2, 3]) };
            let id = if i == 0 { a } else { b };
            if fields { w.path(&[129, 3, 5, id]); } else { w.path(&[128 + id, 3, 5, 4]); }
            for k in keys { w.kv(KEYS[k], &enc(&v[i][k])); }
            w.up(4);
        }
    }
    let vb = v.pop().unwrap(); let va = v.pop().unwrap();
    let nm = || b"T".to_vec();
    let want = if fields { vec![Tb { id: 1, name: nm(), fields: vec![F { id: a, v: va }, F { id: b, v: vb }] }] }
        else { vec![Tb { id: a, name: nm(), fields: vec![F { id: 4, v: va }] }, Tb { id: b, name: nm(), fields: vec![F { id: 4, v: vb }] }] };
    expect(&decompile(&simple(vec![w.b])), &want);
    witness("end");
}
/// any table number and any field number
#[no_mangle]
pub extern "C" fn h_ids() {
    let (t, fl) = if flag() {
        let (h, l) = (byte(), byte());
        assume(h < 4);
        if param(0) == 0 { assume(l < 3 || l > 252 || l == 127 || l == 128); }
        (split(h as usize * 256 + l as usize), 1)
    } else {
        let (h, l) = (byte(), byte());
        assume(h < 5);
        if param(0) == 0 { assume(l < 3 || l > 252 || l == 127 || l == 128); }
        (1, split(h as usize * 256 + l as usize))
    };
    if t + 128 > 1151 || fl > 1151 { reject("no two-byte form"); }
    let name = text(2);
    let mut w = W::new();
    w.path(&[3, 16, 5, 128 + t]); w.kv(16, &enc(b"T")); w.up(4);
    w.path(&[128 + t, 3, 5, fl]); w.kv(16, &enc(&name)); w.up(4);
    let nm = b"T".to_vec();
    expect(&decompile(&simple(vec![w.b])), &[Tb { id: t, name: nm, fields: vec![F { id: fl, v: [vec![], name, vec![], vec![]] }] }]);
    witness("end");
}
/// the same entries spread over sectors in any way: directories that continue in the next sector are opened again there
#[no_mangle]
pub extern "C" fn h_sectors() {
    let (n1, n2, a, b) = (text(1), text(1), text(1), text(1));
    let (d, u) = (text(1), text(1));
    // entries in file order, each with the directories it stands in
    let list: Vec<(Vec<usize>, u8, Vec<u8>)> = vec![
        (vec![3, 16, 5, 129], 2, b"x".to_vec()), (vec![3, 16, 5, 129], 16, n1.clone()), (vec![3, 16, 5, 129], 252, b"x".to_vec()),
        (vec![3, 16, 5, 130], 16, n2.clone()),
        (vec![129, 3, 5, 1], 3, d.clone()), (vec![129, 3, 5, 1], 16, a.clone()), (vec![129, 3, 5, 1], 130, u.clone()),
        (vec![129, 3, 5, 2], 16, b.clone()), (vec![129, 3, 5, 2], 252, b"x".to_vec())];
    let c1 = choose(list.len() + 1);
    let c2 = if param(0) == 1 { c1 + choose(list.len() + 1 - c1) } else { list.len() };
    let mut sectors = vec![];
    let mut w = W::new();
    let mut open: Vec<usize> = vec![];
    for (i, (p, k, v)) in list.iter().enumerate() {
        if i == c1 || i == c2 { sectors.push(w.b); w = W::new(); open.clear(); }
        let same = (0..open.len().min(p.len())).take_while(|j| open[*j] == p[*j]).count();
        w.up(open.len() - same);
        w.path(&p[same..]);
        open = p.clone();
        w.kv(*k, &enc(v));
    }
    sectors.push(w.b);
    expect(&decompile(&simple(sectors)), &[
        Tb { id: 1, name: n1, fields: vec![F { id: 1, v: [d, a, vec![], u] }, F { id: 2, v: [vec![], b, vec![], vec![]] }] },
        Tb { id: 2, name: n2, fields: vec![] }]);
    witness("end");
}
/// one value of any size, in any form
#[no_mangle]
pub extern "C" fn h_forms() {
    let k = choose(4);
    let n = choose(param(0) + 1);
    let t = text(n);
    let mut w = W::new();
    w.path(&[3, 16, 5, 129]); w.kv(16, &enc(b"T")); w.up(4);
    w.path(&[129, 3, 5, 7]);
    store(&mut w, KEYS[k], &enc(&t), choose(3));
    w.up(4);
    let mut v: [Vec<u8>; 4] = [vec![], vec![], vec![], vec![]];
    v[k] = t;
    expect(&decompile(&simple(vec![w.b])), &[Tb { id: 1, name: b"T".to_vec(), fields: vec![F { id: 7, v }] }]);
    witness("end");
}
/// many tables, or many fields in one
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let at = 1 + [0, n / 2, n - 1][choose(3)];
    let mut m = Many::new();
    let mut want = vec![];
    if flag() {
        for i in 1..=n { want.push(Tb { id: i, name: nth(i, at), fields: vec![F { id: 1 + i % 3, v: [vec![], nth(i + 1, at + 1), vec![], nth(i + 2, 0)] }] }); }
    } else {
        let mut fields = vec![];
        for i in 1..=n { fields.push(F { id: i, v: [nth(i + 1, 0), nth(i, at), nth(i + 2, 0), nth(i + 3, 0)] }); }
        want.push(Tb { id: 1, name: b"T".to_vec(), fields });
    }
    for t in &want { m.at(&[3, 16, 5, 128 + t.id], 40).kv(16, &enc(&t.name)); }
    for t in &want { for f in &t.fields { let w = m.at(&[128 + t.id, 3, 5, f.id], 100); for k in 0..4 { if !f.v[k].is_empty() { w.kv(KEYS[k], &enc(&f.v[k])); } } } }
    expect(&decompile(&m.finish()), &want);
    witness("end");
}
