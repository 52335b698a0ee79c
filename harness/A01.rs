//! What an assembled file lists.
use crate::rt::*;
use crate::hx_asmkit::*;
use crate::file::FmpFile;

/// any names
#[no_mangle]
pub extern "C" fn h_names() {
    let (nt, no) = (choose(param(0) + 1), choose(param(0) + 1));
    let mut f = FmpFile::new();
    let mut t: Vec<(usize, Vec<u8>)> = vec![];
    let mut o: Vec<(usize, Vec<u8>)> = vec![];
    let one = choose(nt + no + 1);
    for i in 0..nt { let (n, e) = if one == i { name(param(1)) } else { plain(i * 5 + 1, 1 + i) }; table(&mut f, i + 1, &n); t.push((i + 1, e)); }
    for i in 0..no { let (n, e) = if one == nt + i { name(param(1)) } else { plain(i * 3 + 2, 2 + i) }; occurrence(&mut f, i, &n); o.push((i, e)); }
    let b = assemble(&f);
    let (v, dirs) = items(&b, 2);
    expect_tables(&v, &dirs, &t);
    expect_occurrences(&v, &o);
    witness("end");
}
/// any number of objects, names of any length
#[no_mangle]
pub extern "C" fn h_many() {
    let (nt, no) = (choose(param(0) + 1), choose(param(1) + 1));
    let len = [0usize, 1, 7, param(2)][choose(4)];
    let mut f = FmpFile::new();
    let mut t: Vec<(usize, Vec<u8>)> = vec![];
    let mut o: Vec<(usize, Vec<u8>)> = vec![];
    for i in 0..nt { let (n, e) = plain(i, len); table(&mut f, i + 1, &n); t.push((i + 1, e)); }
    for i in 0..no { let (n, e) = plain(i, len); occurrence(&mut f, i, &n); o.push((i, e)); }
    others(&mut f, 2);
    let b = assemble(&f);
    let (v, dirs) = items(&b, 2);
    expect_tables(&v, &dirs, &t);
    expect_occurrences(&v, &o);
    check(value(&v, &["17", "1"], 0) == &[1, f.scripts.len() as u8], "another number of scripts is stated");
    check(value(&v, &["4", "1"], 0) == &[1, f.layouts.len() as u8], "another number of layouts is stated");
    witness("end");
}
/// any number of a table or an occurrence
#[no_mangle]
pub extern "C" fn h_numbers() {
    let mut f = FmpFile::new();
    let mut t: Vec<(usize, Vec<u8>)> = vec![];
    let mut o: Vec<(usize, Vec<u8>)> = vec![];
    let (a, b) = (1 + choose(255), [1usize, 2, 130, 200][choose(param(0))]);
    if a == b { reject("one table"); }
    for (i, id) in [a, b].iter().enumerate() { let (n, e) = plain(i, 2); table(&mut f, *id, &n); t.push((*id, e)); }
    let m = [0usize, 1, 127, 128, 255, 256, 511, 32768, 65535];
    let (a, b) = if a < 10 { (m[choose(9)], m[choose(9)]) } else { (a * 5, 3) };
    if a == b { reject("one occurrence"); }
    for (i, id) in [a, b].iter().enumerate() { let (n, e) = plain(i, 2); occurrence(&mut f, *id, &n); o.push((*id, e)); }
    let b = assemble(&f);
    let (v, dirs) = items(&b, 2);
    expect_tables(&v, &dirs, &t);
    expect_occurrences(&v, &o);
    witness("end");
}
