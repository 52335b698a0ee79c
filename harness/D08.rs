//! Data sources of a database file.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::file::FmpFile;
use crate::component::FMComponentDataSource;

fn source<'a>(f: &'a FmpFile, id: usize) -> &'a FMComponentDataSource { match f.data_sources.get(&id) { Some(d) => d, None => fail("a data source of the file is missing") } }
/// a character of a path that stands for itself
fn plain() -> u8 { let b = printable(); let e = b ^ 0x5A; assume(e != 50 && e != 65 && e != 218 && e != 219); b }
/// the stored location: kind of source, path with its special codes, file name
fn location(kind: &[u8], path: &[u8], name: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 1, kind.len() as u8];
    v.extend(enc(kind));
    v.push(path.len() as u8);
    v.extend_from_slice(b"A2");
    v.extend_from_slice(path);
    v.push(name.len() as u8);
    v.extend(enc(name));
    v
}
/// an element of a path: its code and its text
fn element(code: &mut Vec<u8>, t: &mut Vec<u8>) {
    match choose(5) {
        0 => { let b = plain(); code.push(b ^ 0x5A); t.push(b); }
        1 => { code.push(65); t.push(b':'); }
        2 => { code.push(218); t.push(b'/'); }
        3 => { code.push(219); t.extend_from_slice(b".."); }
        _ => { code.push(50); }
    }
}
#[no_mangle]
pub extern "C" fn h_sources() {
    let n = 1 + choose(param(0));
    let ids = [[1usize, 2], [127, 128], [1000, 4], [1, 257]][choose(4)];
    let mut want = vec![];
    let mut w = W::new();
    w.path(&[32, 5]);
    for i in 0..n {
        let (nl, fl) = (1 + choose(2), 1 + choose(2));
        let (name, fname, user) = (text(nl), text(fl), text(1));
        let p = vec![plain()];
        w.push(ids[i]);
        w.kv(16, &enc(&name));
        let has = flag();
        if has { w.kv(130, &location(b"file", &enc(&p), &fname)); }
        w.kv_fixed(130, &enc(&user));
        w.pop();
        want.push((ids[i], name, has, fname, p, user));
    }
    w.up(2);
    let f = decompile(&simple(vec![w.b]));
    check(f.data_sources.len() == n, "another number of data sources");
    for (id, name, has, fname, p, user) in &want {
        let d = source(&f, *id);
        check(d.source_name.as_bytes() == &name[..], "a data source has another name");
        check(d.created_by_user.as_bytes() == &user[..], "a data source has another creator");
        let l = &d.source_location;
        if *has { check(l.source_filename.as_bytes() == &fname[..] && l.source_path.as_bytes() == &p[..] && l.source_type == "file", "a data source has another location"); } else { check(l.source_filename.is_empty() && l.source_path.is_empty() && l.source_type.is_empty(), "a data source without location has one"); }
    }
    witness("end");
}
/// paths of any elements, names of any length
#[no_mangle]
pub extern "C" fn h_paths() {
    let n = choose(param(0) + 1);
    let (mut code, mut t) = (vec![], vec![]);
    for _ in 0..n { element(&mut code, &mut t); }
    let fl = choose(param(1) + 1);
    let fname = text(fl);
    let kind: &[u8] = if flag() { b"file" } else { b"fmnet" };
    let mut w = W::new();
    w.path(&[32, 5, 1]);
    w.kv(130, &location(kind, &code, &fname));
    let f = decompile(&simple(vec![w.b]));
    let l = &source(&f, 1).source_location;
    check(l.source_type.as_bytes() == kind, "a data source is of another kind");
    check(l.source_path.as_bytes() == &t[..], "a data source has another path");
    check(l.source_filename.as_bytes() == &fname[..], "a data source has another file");
    witness("end");
}
/// many data sources
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let at = 1 + [0, n / 2, n - 1][choose(3)];
    let mut m = Many::new();
    let x = plain();
    let names: Vec<Vec<u8>> = (0..=n + 3).map(|i| { let mut v = nth(i, n + 9); if i == at { v.push(x); } v }).collect();
    for i in 1..=n { let w = m.at(&[32, 5, i], 100); w.kv(16, &enc(&names[i])); w.kv(130, &location(b"file", &enc(&names[i + 1]), &names[i + 2])); w.kv_fixed(130, &enc(b"me")); }
    let f = decompile(&m.finish());
    check(f.data_sources.len() == n, "another number of data sources");
    for i in 1..=n {
        let d = source(&f, i);
        check(d.source_name.as_bytes() == &names[i][..], "a data source has another name");
        check(d.created_by_user == "me" && d.source_location.source_path.as_bytes() == &names[i + 1][..] && d.source_location.source_filename.as_bytes() == &names[i + 2][..], "a data source has another location");
    }
    witness("end");
}
