//! The catalog of scripts and where every kind of object of a file ends up.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::file::FmpFile;
use crate::hx_B04::step;

/// any script number, any names, in one or several catalog directories
#[no_mangle]
pub extern "C" fn h_names() {
    let n = 1 + choose(param(0));
    let ids = [[1usize, 2, 3], [127, 128, 300], [1151, 1152, 4], [1, 257, 129]][choose(4)];
    let dirs = choose(2);
    let mut want = vec![];
    let mut w = W::new();
    w.path(&[17, 1, 1]);
    for i in 0..n {
        if i == 1 && dirs == 1 { w.pop(); w.push(7); }
        let len = choose(3);
        let name = text(len);
        w.push(ids[i]);
        if flag() { w.kv(2, b"ab"); }
        w.kv(16, &enc(&name));
        w.kv(130, &enc(b"Admin"));
        w.pop();
        want.push((ids[i], name));
    }
    w.up(3);
    let f = decompile(&simple(vec![w.b]));
    check(f.scripts.len() == n, "another number of scripts");
    for (id, name) in &want {
        match f.scripts.get(id) { Some(s) => { check(s.script_name.as_bytes() == &name[..], "a script has another name"); check(s.instructions.is_empty(), "a script without steps has some"); } None => fail("a script of the file is missing") }
    }
    check(f.tables.is_empty() && f.layouts.is_empty(), "scripts made other objects appear");
    witness("end");
}
/// a script renamed by a later entry keeps its steps
#[no_mangle]
pub extern "C" fn h_renamed() {
    let (a, b) = (text(1), text(1));
    let mut w = W::new();
    w.path(&[17, 1, 1, 1]); w.kv(16, &enc(&a)); w.up(4);
    w.path(&[17, 5, 1]); w.kv(4, &step(5, 1)); w.up(3);
    let mut v = W::new();
    v.path(&[17, 1, 1, 1]); v.kv(16, &enc(&b)); v.up(4);
    let f = decompile(&simple(vec![w.b, v.b]));
    match f.scripts.get(&1) { Some(s) => { check(s.script_name.as_bytes() == &b[..], "a script has another name"); check(s.instructions.len() == 1, "a script lost its steps"); } None => fail("a script of the file is missing") }
    witness("end");
}
/// objects of every kind in one file, in any order of their directories over any cut into two sectors: each is found, none twice
#[no_mangle]
pub extern "C" fn h_all() {
    let mut left: Vec<usize> = (0..7).collect();
    let cut = choose(param(0) + 1);
    let mut sectors = vec![];
    let mut w = W::new();
    let x = printable();
    let mut perform = step(1, 1);
    perform[8] = 4;
    // the first places in any order, the rest as they come
    for i in 0..7 {
        if i == cut { sectors.push(w.b); w = W::new(); }
        let k = if i < param(0) { left.remove(choose(left.len())) } else { left.remove(0) };
        match k {
            0 => { w.path(&[3, 16, 5, 129]); w.kv(16, &enc(&[b'T', x])); w.up(4); }
            1 => { w.path(&[3, 17, 5, 2]); w.kv(2, &[0, 0, 0, 0, 0, 0, 1, 0]); w.kv(16, &enc(&[b'O', x])); w.up(4); }
            2 => { w.path(&[4, 1, 7, 3]); w.kv(2, &[0, 130, 0]); w.kv(16, &enc(&[b'L', x])); w.up(4); }
            3 => { w.path(&[17, 1, 1, 4]); w.kv(16, &enc(&[b'S', x])); w.up(4); }
            // the steps of the script: it performs itself
            6 => { w.path(&[17, 5, 4]); w.kv(4, &perform); w.up(3); }
            4 => { w.path(&[129, 3, 5, 5]); w.kv(16, &enc(&[b'F', x])); w.up(4); }
            _ => { w.path(&[32, 5, 6]); w.kv(16, &enc(&[b'D', x])); w.up(3); }
        }
    }
    sectors.push(w.b);
    let f = decompile(&simple(sectors));
    check(f.tables.len() == 1 && f.table_occurrences.len() == 1 && f.layouts.len() == 1 && f.scripts.len() == 1 && f.data_sources.len() == 1 && f.relationships.is_empty() && f.value_lists.is_empty() && f.tests.is_empty(), "another number of objects");
    let named = |s: &str, c: u8| check(s.as_bytes() == &[c, x][..], "an object has another name");
    match f.tables.get(&1) { Some(t) => { named(&t.table_name, b'T'); check(t.fields.len() == 1, "a table has another number of fields"); match t.fields.get(&5) { Some(d) => named(&d.field_name, b'F'), None => fail("a field of the file is missing") } } None => fail("a table of the file is missing") }
    match f.table_occurrences.get(&2) { Some(o) => { named(&o.table_occurence_name, b'O'); check(o.table_actual == 1, "an occurrence shows another table"); } None => fail("an occurrence of the file is missing") }
    match f.layouts.get(&3) { Some(l) => { named(&l.layout_name, b'L'); check(l.table_occurrence == 2, "a layout shows another occurrence"); } None => fail("a layout of the file is missing") }
    match f.scripts.get(&4) { Some(s) => { named(&s.script_name, b'S'); check(s.instructions.len() == 1, "a script has another number of steps"); check(s.instructions[0].switches.len() == 1 && s.instructions[0].switches[0].as_bytes() == &[b'"', b'S', x, b'"'][..], "a step performs another script"); } None => fail("a script of the file is missing") }
    match f.data_sources.get(&6) { Some(d) => named(&d.source_name, b'D'), None => fail("a data source of the file is missing") }
    witness("end");
}
/// many objects of every kind, interleaved or one kind after the other
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let at = 1 + [0, n / 2, n - 1][choose(3)];
    let turns = flag();
    let mut m = Many::new();
    let names: Vec<Vec<u8>> = (0..=n).map(|i| nth(i, at)).collect();
    let of = |k: u8, i: usize| { let mut v = vec![k]; v.extend_from_slice(&names[i]); v };
    for j in 0..6 * n {
        let (k, i) = if turns { (j % 6, 1 + j / 6) } else { (j / n, 1 + j % n) };
        match k {
            0 => { m.at(&[3, 16, 5, 128 + i], 40).kv(16, &enc(&of(b'T', i))); }
            1 => { let w = m.at(&[3, 17, 5, i], 40); w.kv(2, &[0, 0, 0, 0, 0, 0, i as u8, 0]); w.kv(16, &enc(&of(b'O', i))); }
            2 => { let w = m.at(&[4, 1, 7, i], 40); w.kv(2, &[0, 128 + (i % 128) as u8, 0]); w.kv(16, &enc(&of(b'L', i))); }
            3 => { m.at(&[17, 1, 1, i], 40).kv(16, &enc(&of(b'S', i))); }
            4 => { m.at(&[128 + i, 3, 5, 5], 40).kv(16, &enc(&of(b'F', i))); }
            _ => { m.at(&[32, 5, i], 40).kv(16, &enc(&of(b'D', i))); }
        }
    }
    let f = decompile(&m.finish());
    check(f.tables.len() == n && f.table_occurrences.len() == n && f.layouts.len() == n && f.scripts.len() == n && f.data_sources.len() == n && f.relationships.is_empty() && f.value_lists.is_empty() && f.tests.is_empty(), "another number of objects");
    for i in 1..=n {
        let named = |s: &str, c: u8| check(s.as_bytes() == &of(c, i)[..], "an object has another name");
        match f.tables.get(&i) { Some(t) => { named(&t.table_name, b'T'); check(t.fields.len() == 1, "a table has another number of fields"); match t.fields.get(&5) { Some(d) => named(&d.field_name, b'F'), None => fail("a field of the file is missing") } } None => fail("a table of the file is missing") }
        match f.table_occurrences.get(&i) { Some(o) => { named(&o.table_occurence_name, b'O'); check(o.table_actual as usize == i % 256, "an occurrence shows another table"); } None => fail("an occurrence of the file is missing") }
        match f.layouts.get(&i) { Some(l) => { named(&l.layout_name, b'L'); check(l.table_occurrence == i % 128, "a layout shows another occurrence"); } None => fail("a layout of the file is missing") }
        match f.scripts.get(&i) { Some(s) => { named(&s.script_name, b'S'); check(s.instructions.is_empty(), "a script has another number of steps"); } None => fail("a script of the file is missing") }
        match f.data_sources.get(&i) { Some(d) => named(&d.source_name, b'D'), None => fail("a data source of the file is missing") }
    }
    witness("end");
}
