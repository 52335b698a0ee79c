//! Content the result has no place for changes nothing.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::file::FmpFile;
use crate::hx_B04::step;

/// everything in a result, as text
fn dump(f: &FmpFile) -> String {
    let mut o = String::new();
    let mut k: Vec<_> = f.tables.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("table {} {:?}\n", i, t)); }
    let mut k: Vec<_> = f.relationships.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("relationship {} {:?}\n", i, t)); }
    let mut k: Vec<_> = f.layouts.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("layout {} {:?}\n", i, t)); }
    let mut k: Vec<_> = f.value_lists.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("list {} {:?}\n", i, t)); }
    let mut k: Vec<_> = f.scripts.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("script {} {:?}\n", i, t)); }
    let mut k: Vec<_> = f.table_occurrences.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("occurrence {} {:?}\n", i, t)); }
    let mut k: Vec<_> = f.data_sources.iter().collect(); k.sort_by_key(|x| *x.0);
    for (i, t) in k { o.push_str(&format!("source {} {:?}\n", i, t)); }
    o.push_str(&format!("tests {:?} {}\n", f.tests, f.name));
    o
}
const LISTS: &[&[usize]] = &[&[3, 16, 5], &[3, 17, 5], &[3, 17, 5, 1, 251], &[3, 251, 5], &[4, 1, 7], &[4, 1, 7, 2], &[17, 1], &[17, 1, 1], &[17, 1, 1, 3], &[17, 5], &[32, 5], &[129, 3, 5]];
enum E { Down(usize), Up, Kv(u8, Vec<u8>), Data(Vec<u8>), Seg(u8, Vec<u8>) }
/// a file with objects of every kind
fn content() -> Vec<E> {
    let mut o = vec![];
    let open = |o: &mut Vec<E>, p: &[usize]| for d in p { o.push(E::Down(*d)); };
    let close = |o: &mut Vec<E>, n: usize| for _ in 0..n { o.push(E::Up); };
    open(&mut o, &[3, 16, 5, 129]); o.push(E::Kv(16, enc(b"T"))); close(&mut o, 3);
    open(&mut o, &[17, 5, 1]); o.push(E::Kv(2, vec![0, 0, 0, 0, 0, 0, 1])); o.push(E::Kv(16, enc(b"O"))); open(&mut o, &[251]); o.push(E::Data(vec![0xd0, 0, 2, 1, 4])); close(&mut o, 4);
    open(&mut o, &[251, 5, 4, 3]); o.push(E::Kv(1, vec![2, 2, 1, 5, 2, 1, 6])); close(&mut o, 5);
    open(&mut o, &[4, 1, 7, 2]); o.push(E::Kv(2, vec![0, 129, 0])); o.push(E::Kv(16, enc(b"L"))); close(&mut o, 4);
    open(&mut o, &[17, 1, 1, 3]); o.push(E::Kv(16, enc(b"S"))); close(&mut o, 3);
    open(&mut o, &[5, 3, 4]); o.push(E::Seg(1, step(141, 1))); o.push(E::Seg(2, step(103, 2))); close(&mut o, 1);
    open(&mut o, &[5, 1, 128]); o.push(E::Kv(1, enc(b"$a"))); close(&mut o, 1); open(&mut o, &[129, 5]); o.push(E::Kv(5, vec![0x1a, 1, b'v' ^ 0x5A])); close(&mut o, 3);
    open(&mut o, &[2, 128, 5]); o.push(E::Kv(5, vec![0x1a, 1, b'w' ^ 0x5A])); close(&mut o, 7);
    open(&mut o, &[32, 5, 1]); o.push(E::Kv(16, enc(b"D"))); close(&mut o, 3);
    open(&mut o, &[129, 3, 5, 1]); o.push(E::Kv(16, enc(b"F"))); close(&mut o, 4);
    o
}
/// what may stand anywhere without a meaning
fn junk(w: &mut W, kind: usize, nested: usize) {
    match kind {
        0 => w.noop(),
        1 => { w.b.extend_from_slice(&[0x16, byte(), byte(), byte(), 2, byte(), byte()]); }
        2 => { w.b.extend_from_slice(&[0x1e, 2, byte(), byte(), 1, byte()]); }
        // a directory nobody reads, with values and directories of its own
        3 => { w.push([6usize, 23, 200][nested % 3]); w.b.extend_from_slice(&[6, byte(), 1, byte()]); w.push(9); w.b.extend_from_slice(&[0x0e, 0xfc, byte(), 1, byte()]); w.data(&[byte()]); w.up(2); }
        4 => { w.push(60); w.seg(1, &[byte(), byte()]); w.b.extend_from_slice(&[0x1b, 1, byte(), 0, 0, 0, 0]); w.pop(); }
        // step-sized content that is no step's
        6 => { w.push(60); let k = byte(); w.kv(k, &step(byte(), 2)); w.pop(); }
        7 => { w.push(60); let k = byte(); w.seg(k, &step(byte(), 2)); w.pop(); }
        _ => { w.push(60); w.b.push(0xc0); w.b.push(byte()); }
    }
}
fn write(list: &[E], at: usize, kind: usize, cut: bool) -> Vec<Vec<u8>> {
    let mut w = W::new();
    let mut open: Vec<usize> = vec![];
    let mut sectors = vec![];
    for (i, e) in list.iter().enumerate() {
        if i == at {
            // where every directory means an entry, a directory is not without meaning
            if kind >= 3 && LISTS.iter().any(|l| &open[..] == *l) { reject("a directory of entries"); }
            junk(&mut w, kind, open.len());
            // the rest stands in another sector
            if cut { sectors.push(w.b); w = W::new(); let p = open.clone(); w.path(&p); }
        }
        match e { E::Down(d) => { w.push(*d); open.push(*d); } E::Up => { w.pop(); open.pop(); } E::Kv(k, v) => w.kv(*k, v), E::Data(v) => w.data(v), E::Seg(k, v) => w.seg(*k, v) }
    }
    if at == list.len() { junk(&mut w, kind, 0); }
    sectors.push(w.b);
    sectors
}
const PLAIN: &str = "table 1 FMComponentTable { table_name: \"T\"";
#[no_mangle]
pub extern "C" fn h_junk() {
    let list = content();
    let at = choose(list.len() + 1);
    let kind = choose(8);
    let cut = flag();
    let base = dump(&decompile(&simple(write(&list, usize::MAX, 0, false))));
    check(base.starts_with(PLAIN) && base.contains("\"F\"") && base.contains("\"$a\", \"v\"") && base.contains("[\"w\"]") && base.contains("\"D\"") && base.contains("comparison: Less }"), "harness: the plain file is not read");
    let with = dump(&decompile(&simple(write(&list, at, kind, cut))));
    observe(with.as_bytes());
    check(with == base, "content without a meaning changed the result");
    witness("end");
}
/// the directories that mean something; ANY stands for an entry's number
const ANY: usize = usize::MAX;
const KNOWN: &[&[usize]] = &[&[3, 16, 5, ANY], &[3, 17, 5, ANY], &[3, 17, 5, ANY, 251], &[3, 251, 5, ANY, 3], &[4, 1, 7, ANY], &[ANY, 3, 5, ANY], &[17, 5, ANY], &[17, 5, ANY, 4], &[17, 5, ANY, 5, ANY, 128], &[17, 5, ANY, 5, ANY, 128, 5], &[17, 5, ANY, 5, ANY, 129, 5], &[17, 1, ANY, ANY], &[32, 5, ANY]];
fn means(p: &[usize], k: &[usize]) -> bool {
    if p.len() != k.len() { return false; }
    for i in 0..p.len() { if k[i] == ANY { if i == 0 && p[0] < 128 { return false; } } else if k[i] != p[i] { return false; } }
    true
}
/// the directories of the file written by content()
const USED: &[&[usize]] = &[&[3, 16, 5, 129], &[3, 17, 5, 1], &[3, 17, 5, 1, 251], &[3, 251, 5, 4, 3], &[4, 1, 7, 2], &[129, 3, 5, 1], &[17, 5, 3, 4], &[17, 5, 3, 5, 1, 128], &[17, 5, 3, 5, 1, 129, 5], &[17, 5, 3, 5, 2, 128, 5], &[17, 1, 1, 3], &[32, 5, 1], &[17, 5, 3]];
/// content in a directory that differs in one number from one that means something
#[no_mangle]
pub extern "C" fn h_near() {
    let list = content();
    let base = dump(&decompile(&simple(write(&list, usize::MAX, 0, false))));
    let mut p = USED[choose(USED.len() - 1)].to_vec();
    let at = choose(p.len());
    p[at] = [1usize, 2, 3, 4, 5, 6, 7, 15, 16, 17, 18, 32, 33, 64, 127, 128, 129, 130, 250, 251, 252, 300][choose(22)];
    if choose(2) == 1 { p.push([2usize, 3, 5, 128][choose(4)]); }
    for n in 1..=p.len() { if KNOWN.iter().any(|k| means(&p[..n], k)) && !USED.iter().any(|u| *u == &p[..n]) { reject("a directory with a meaning"); } }
    if KNOWN.iter().any(|k| means(&p, k)) { reject("a directory with a meaning"); }
    let mut w = W::new();
    w.path(&p);
    w.kv(16, &enc(b"zz"));
    w.kv(1, &[4, 2, 1, 8, 2, 1, 9]);
    w.kv(2, &[0, 131, 0, 0, 0, 0, 9, 0]);
    w.kv(3, &enc(b"zz"));
    w.kv(5, &[0x1a, 1, b'q' ^ 0x5A]);
    w.kv(130, &enc(b"zz"));
    w.data(&[0xd0, 0, 3, 1, 5]);
    w.seg(1, &step(5, 7));
    w.up(p.len());
    let mut rest = write(&list, usize::MAX, 0, false).remove(0);
    let first = flag();
    // inside an entry it stands behind what the file says about it
    if first && USED.iter().any(|u| p.len() > u.len() && p[..u.len()] == u[..]) { reject("inside an entry"); }
    let all = if first { let mut a = w.b; a.append(&mut rest); a } else { rest.extend(w.b); rest };
    let with = dump(&decompile(&simple(vec![all])));
    check(with == base, "a directory without a meaning changed the result");
    witness("end");
}
