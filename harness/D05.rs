//! Table occurrences and relationships of a database file.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::component::*;
use crate::file::FmpFile;

fn occurrence<'a>(f: &'a FmpFile, id: usize) -> &'a FMComponentTableOccurence { match f.table_occurrences.get(&id) { Some(o) => o, None => fail("an occurrence of the file is missing") } }
fn entry(w: &mut W, form: usize, id: usize) { if form == 0 { w.push(id) } else { w.push_as(3, id) } }
/// the description of an occurrence: the table's number is its seventh byte
fn desc(table: u8) -> Vec<u8> { let mut v = vec![0u8; 9]; for i in 0..9 { v[i] = 7 * i as u8 + 3; } v[6] = table; v }
fn comparison(c: u8) -> RelationComparison { match c { 1 => RelationComparison::NotEqual, 2 => RelationComparison::Less, 3 => RelationComparison::LessEqual, 4 => RelationComparison::Greater, 5 => RelationComparison::GreaterEqual, 6 => RelationComparison::Cartesian, _ => RelationComparison::Equal } }
fn same(a: &RelationComparison, b: &RelationComparison) -> bool { format!("{:?}", a) == format!("{:?}", b) }

#[no_mangle]
pub extern "C" fn h_occurrences() {
    let n = 1 + choose(param(0));
    let ids = [[1usize, 2, 3], [129, 130, 1200], [200, 65, 1023], [1, 257, 129]][choose(4)];
    let form = choose(2);
    let cut = choose(n + 1);
    let mut want = vec![];
    let mut sectors = vec![];
    let mut w = W::new();
    w.path(&[3, 17, 5]);
    for i in 0..n {
        let (t, name) = (byte(), text(2));
        entry(&mut w, form, ids[i]);
        w.kv(2, &desc(t));
        // the entry may continue in the next sector
        if i == cut { sectors.push(w.b); w = W::new(); w.path(&[3, 17, 5]); entry(&mut w, form, ids[i]); }
        w.kv(16, &enc(&name));
        if flag() { w.kv(252, b"abcdefgh"); }
        w.pop();
        want.push((ids[i], t, name));
    }
    sectors.push(w.b);
    let f = decompile(&simple(sectors));
    check(f.table_occurrences.len() == n, "another number of occurrences");
    for (id, t, name) in &want {
        let o = occurrence(&f, *id);
        check(o.table_actual == *t as u16, "an occurrence shows another table");
        check(o.table_occurence_name.as_bytes() == &name[..], "an occurrence has another name");
    }
    check(f.relationships.is_empty() && f.tables.is_empty(), "occurrences made other objects appear");
    witness("end");
}
/// what is stored in the listing of a relationship at an occurrence: the other occurrence and the relationship's number
fn listing(other: usize, rel: u8) -> Vec<u8> { vec![0xd0 | (other >> 16) as u8, (other >> 8) as u8, other as u8, 1, rel] }
/// the criterion: comparison and the two fields
fn criterion(c: u8, f1: u8, f2: u8) -> Vec<u8> { vec![c, 2, 1, f1, 2, 1, f2] }
#[no_mangle]
pub extern "C" fn h_relationships() {
    let n = 1 + choose(param(0));
    let occ = [[1usize, 2, 3], [129, 130, 131], [5, 300, 2000], [1, 129, 257]][choose(4)];
    let ids = [1u8, 2, 200];
    let mut rels = vec![];
    for i in 0..n {
        let a = choose(3); let b = choose(3);
        if b <= a { reject("sides in order"); }
        let (c, f1, f2) = (byte(), byte(), byte());
        rels.push((ids[i], occ[a], occ[b], split((c as usize).min(7)) as u8, c, f1, f2));
    }
    let mut w = W::new();
    let simple_code = flag();
    w.path(&[3, 17, 5]);
    for o in occ {
        w.push(o);
        w.kv(2, &desc(1));
        w.kv(16, &enc(b"o"));
        w.push(251);
        // listed at both of its occurrences
        for r in &rels {
            let l = if r.1 == o { listing(r.2, r.0) } else if r.2 == o { listing(r.1, r.0) } else { continue };
            if simple_code { w.b.push(0x12); w.b.extend_from_slice(&l); } else { w.data(&l); }
        }
        w.up(2);
    }
    w.up(3);
    let mut sectors = vec![];
    if flag() { sectors.push(w.b); w = W::new(); }
    w.path(&[3, 251, 5]);
    for r in &rels { w.push(r.0 as usize); w.push(3); w.kv(1, &criterion(r.4, r.5, r.6)); w.up(2); }
    w.up(3);
    sectors.push(w.b);
    let f = decompile(&simple(sectors));
    check(f.relationships.len() == n, "another number of relationships");
    check(f.table_occurrences.len() == 3, "another number of occurrences");
    for r in &rels {
        let g = match f.relationships.get(&(r.0 as usize)) { Some(g) => g, None => fail("a relationship of the file is missing") };
        check(g.table1 as usize == r.1 && g.table2 as usize == r.2, "a relationship connects other occurrences");
        check(g.field1 == r.5 as u16 && g.field2 == r.6 as u16, "a relationship compares other fields");
        check(same(&g.comparison, &comparison(r.3)), "a relationship compares differently");
    }
    witness("end");
}
/// any occurrence number on either side, any relationship number
#[no_mangle]
pub extern "C" fn h_ids() {
    let rel = byte();
    let (h, l) = (byte(), byte());
    assume(h < 16);
    if param(0) == 0 { assume(l < 2 || l == 127 || l == 128 || l == 255); assume(h < 5 || h == 15); }
    let other = split(h as usize * 256 + l as usize);
    let mut w = W::new();
    w.path(&[3, 17, 5, 3, 251]);
    w.data(&listing(other, rel));
    w.up(5);
    w.path(&[3, 251, 5]);
    let r = split(rel as usize);
    if r % 32 != 1 && param(0) == 0 && r > 3 && r != 127 && r != 128 && r != 255 { reject("sampled number"); }
    w.push(r); w.push(3);
    w.kv(1, &criterion(0, 1, 2));
    let f = decompile(&simple(vec![w.b]));
    check(f.relationships.len() == 1, "another number of relationships");
    let g = match f.relationships.get(&r) { Some(g) => g, None => fail("a relationship of the file is missing") };
    check(g.table1 == 3 && g.table2 as usize == other && g.field1 == 1 && g.field2 == 2, "a relationship connects other occurrences");
    witness("end");
}
/// many occurrences, each related to the next
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let r = n.min(256) - 1;
    let at = 1 + [0, n / 2, n - 1][choose(3)];
    let mut m = Many::new();
    let names: Vec<Vec<u8>> = (1..=n).map(|i| nth(i, at)).collect();
    let t = byte();
    let table = |i: usize| if i == at { t } else { i as u8 };
    for i in 1..=n {
        let w = m.at(&[3, 17, 5, i], 60);
        w.kv(2, &desc(table(i)));
        w.kv(16, &enc(&names[i - 1]));
        let w = m.at(&[3, 17, 5, i, 251], 30);
        if i > 1 && i - 1 <= r { w.data(&listing(i - 1, (i - 1) as u8)); }
        if i < n && i <= r { w.data(&listing(i + 1, i as u8)); }
    }
    for i in 1..=r { m.at(&[3, 251, 5, i, 3], 20).kv(1, &criterion((i % 7) as u8, i as u8, 255 - i as u8)); }
    let f = decompile(&m.finish());
    check(f.table_occurrences.len() == n, "another number of occurrences");
    for i in 1..=n { let o = occurrence(&f, i); check(o.table_actual == table(i) as u16, "an occurrence shows another table"); check(o.table_occurence_name.as_bytes() == &names[i - 1][..], "an occurrence has another name"); }
    check(f.relationships.len() == r, "another number of relationships");
    for i in 1..=r {
        let g = match f.relationships.get(&i) { Some(g) => g, None => fail("a relationship of the file is missing") };
        check(g.table1 as usize == i && g.table2 as usize == i + 1, "a relationship connects other occurrences");
        check(g.field1 as usize == i && g.field2 as usize == 255 - i, "a relationship compares other fields");
        check(same(&g.comparison, &comparison((i % 7) as u8)), "a relationship compares differently");
    }
    witness("end");
}
