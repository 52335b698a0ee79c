//! Layouts of a database file.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::file::FmpFile;

fn layout<'a>(f: &'a FmpFile, id: usize) -> &'a crate::component::FMComponentLayout { match f.layouts.get(&id) { Some(l) => l, None => fail("a layout of the file is missing") } }
/// the description of a layout: its second byte is 128 plus the occurrence
fn desc(o: u8) -> Vec<u8> { vec![7, 128 + o, 1, 9, 0, 3] }
#[no_mangle]
pub extern "C" fn h_layouts() {
    let n = 1 + choose(param(0));
    let ids = [[1usize, 2, 3], [127, 128, 129], [4, 1000, 2000], [1, 129, 257]][choose(4)];
    let cut = choose(n + 1);
    let deep = choose(3);
    let mut want = vec![];
    let mut sectors = vec![];
    let mut w = W::new();
    w.path(&[4, 1, 7]);
    for i in 0..n {
        let (o, name) = (byte(), text(2));
        assume(o < 128);
        w.push(ids[i]);
        w.kv(2, &desc(o));
        if deep == 1 && i == 0 { w.push(5); w.push(3); w.kv(9, b"parts"); w.up(2); }
        if i == cut { sectors.push(w.b); w = W::new(); w.path(&[4, 1, 7]); w.push(ids[i]); }
        w.kv(16, &enc(&name));
        if deep == 2 && i == 0 { w.push(5); w.kv(9, b"parts"); w.up(1); }
        if flag() { w.kv(130, b"Admin"); }
        w.pop();
        want.push((ids[i], o, name));
    }
    sectors.push(w.b);
    let f = decompile(&simple(sectors));
    check(f.layouts.len() == n, "another number of layouts");
    for (id, o, name) in &want {
        let l = layout(&f, *id);
        check(l.table_occurrence == *o as usize, "a layout shows another occurrence");
        check(l.layout_name.as_bytes() == &name[..], "a layout has another name");
    }
    check(f.tables.is_empty() && f.scripts.is_empty(), "layouts made other objects appear");
    witness("end");
}
/// any layout number, names of any characters
#[no_mangle]
pub extern "C" fn h_ids() {
    let (h, l) = (byte(), byte());
    assume(h < 8);
    if param(0) == 0 { assume(l < 3 || l == 127 || l == 128 || l == 255); }
    let id = split(h as usize * 256 + l as usize);
    let len = choose(4);
    let name = text(len);
    let mut w = W::new();
    w.path(&[4, 1, 7, id]);
    if flag() { w.kv(16, &enc(&name)); } else { w.kv_fixed(16, &enc(&name)); }
    let f = decompile(&simple(vec![w.b]));
    check(f.layouts.len() == 1, "another number of layouts");
    check(layout(&f, id).layout_name.as_bytes() == &name[..], "a layout has another name");
    witness("end");
}
/// many layouts
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let at = 1 + [0, n / 2, n - 1][choose(3)];
    let mut m = Many::new();
    let names: Vec<Vec<u8>> = (1..=n).map(|i| nth(i, at)).collect();
    for i in 1..=n { let w = m.at(&[4, 1, 7, i], 60); w.kv(2, &desc((i % 128) as u8)); w.kv(16, &enc(&names[i - 1])); m.at(&[4, 1, 7, i, 5], 20).kv(9, b"parts"); }
    let f = decompile(&m.finish());
    check(f.layouts.len() == n, "another number of layouts");
    for i in 1..=n { let l = layout(&f, i); check(l.table_occurrence == i % 128, "a layout shows another occurrence"); check(l.layout_name.as_bytes() == &names[i - 1][..], "a layout has another name"); }
    witness("end");
}
