//! The steps of a database file's scripts.
use crate::rt::*;
use crate::hx_fmpkit::*;
use crate::hx_opkit::*;
use crate::file::FmpFile;

/// one stored step: its number, its code, the script it names
fn stored(code: u8, index: usize, target: u8) -> Vec<u8> {
    let mut v = vec![0u8; 28];
    let mut w = W::new();
    w.push(index);
    let n = w.b[1..].to_vec();
    v[0] = 1 + n.len() as u8;
    for i in 0..n.len() { v[2 + i] = n[i]; }
    v[8] = target;
    v[21] = code;
    v
}
#[derive(Clone)]
struct Want { code: u8, index: usize, sw: Vec<Vec<u8>> }
fn expect(f: &FmpFile, id: usize, name: &[u8], want: &[Want]) {
    let s = match f.scripts.get(&id) { Some(s) => s, None => fail("a script of the file is missing") };
    check(s.script_name.as_bytes() == name, "a script has another name");
    check(s.instructions.len() == want.len(), "a script has another number of steps");
    for (g, w) in s.instructions.iter().zip(want) {
        check(is_step(&g.opcode, w.code), "a step is another one");
        check(g.index == w.index, "a step has another number");
        check(g.switches.len() == w.sw.len(), "a step has another number of parameters");
        for (a, b) in g.switches.iter().zip(&w.sw) { check(a.as_bytes() == &b[..], "a step has another parameter"); }
    }
}
fn catalog(w: &mut W, names: &[(usize, &[u8])]) { w.path(&[17, 1, 1]); for (id, n) in names { w.push(*id); w.kv(16, &enc(n)); w.pop(); } w.up(3); }
/// the steps, in one piece or cut into segments
fn body(w: &mut W, all: &[u8], segmented: bool, cuts: usize) {
    if !segmented { w.kv(4, all); return; }
    w.push(4);
    let mut from = 0;
    let mut k = 1;
    for c in 0..=cuts {
        let to = if c == cuts { all.len() } else { from + choose((all.len() - from) / 4 + 1) * 4 };
        w.seg(k, &all[from..to]);
        k += 1;
        from = to;
    }
    w.pop();
}
/// any code, any number form, one step in one piece or in a segment
#[no_mangle]
pub extern "C" fn h_code() {
    let code = split(byte() as usize) as u8;
    let index = [1usize, 127, 128, 200, 1151, 1152, 70000][choose(7)];
    let seg = flag();
    let mut w = W::new();
    catalog(&mut w, &[(1, b"s")]);
    w.path(&[17, 5, 1]);
    body(&mut w, &stored(code, index, 1), seg, 0);
    w.up(3);
    let f = decompile(&simple(vec![w.b]));
    let want = Want { code, index, sw: if code == 1 { vec![b"\"s\"".to_vec()] } else { vec![] } };
    if STEPS[code as usize].is_empty() { expect(&f, 1, b"s", &[]); } else { expect(&f, 1, b"s", &[want]); }
    witness("end");
}
const KINDS: [u8; 8] = [141, 103, 1, 68, 69, 71, 75, 2];
/// several steps, with what is stored for each of them
#[no_mangle]
pub extern "C" fn h_steps() {
    let n = param(0);
    let seg = flag();
    let late = flag();
    let mut all = vec![];
    let mut want: Vec<Want> = vec![];
    let mut w = W::new();
    let callee = text(2);
    let mut pars = W::new();
    pars.push(5);
    for i in 0..n {
        let code = KINDS[choose(KINDS.len())];
        let index = if late { 127 + i } else { 1 + i };
        let (v, c) = (printable(), printable());
        all.extend(stored(code, index, if code == 1 { 9 } else { 0 }));
        pars.push(index);
        let calc = [0x1a, 1, v ^ 0x5A, 0x25, 0x1a, 1, c ^ 0x5A];
        let shown = vec![v, b'+', c];
        match code {
            141 => { pars.path(&[128]); pars.kv(1, &enc(&[b'$', v])); pars.pop(); pars.path(&[129, 5]); pars.kv(5, &calc); pars.up(2); want.push(Want { code, index, sw: vec![vec![b'$', v], shown] }); }
            103 => { pars.path(&[128, 5]); pars.kv(5, &calc); pars.up(2); want.push(Want { code, index, sw: vec![shown] }); }
            1 => { let mut t = vec![b'"']; t.extend_from_slice(&callee); t.push(b'"'); want.push(Want { code, index, sw: vec![t] }); }
            68 => { pars.path(&[129, 5]); pars.kv(5, &calc); pars.up(2); want.push(Want { code, index, sw: vec![shown] }); }
            // a code without a step may still have parameters; they belong to nobody
            2 => { pars.path(&[128]); pars.kv(1, &enc(b"x")); pars.push(5); pars.kv(5, &calc); pars.up(2); pars.path(&[129, 5]); pars.kv(5, &calc); pars.up(2); }
            _ => want.push(Want { code, index, sw: vec![] }),
        }
        pars.pop();
    }
    pars.pop();
    // the names before or after what they name
    let after = flag();
    if !after { catalog(&mut w, &[(1, b"s"), (9, &callee)]); }
    w.path(&[17, 5, 1]);
    body(&mut w, &all, seg, if seg { param(1) } else { 0 });
    let split_sector = flag();
    let mut sectors = vec![];
    if split_sector { sectors.push(w.b); w = W::new(); w.path(&[17, 5, 1]); }
    w.b.extend_from_slice(&pars.b);
    w.up(3);
    if after { catalog(&mut w, &[(1, b"s"), (9, &callee)]); }
    sectors.push(w.b);
    let f = decompile(&simple(sectors));
    expect(&f, 1, b"s", &want);
    expect(&f, 9, &callee, &[]);
    witness("end");
}
/// two scripts: each keeps its own steps, and a call names the script it means
#[no_mangle]
pub extern "C" fn h_scripts() {
    let (a, b) = (text(2), text(2));
    let ids = [(1usize, 2usize), (2, 1), (7, 200)][choose(3)];
    let mut w = W::new();
    // the names before or after what they name
    let after = flag();
    if !after { catalog(&mut w, &[(ids.0, &a), (ids.1, &b)]); }
    w.path(&[17, 5]);
    let mut wants: Vec<Vec<Want>> = vec![];
    for (id, _) in [(ids.0, 0), (ids.1, 1)] {
        let n = choose(param(0) + 1);
        let seg = flag();
        let mut all = vec![];
        let mut want = vec![];
        for i in 0..n {
            let to = choose(3);
            let target = [ids.0, ids.1, 99][to];
            all.extend(stored(1, i + 1, target as u8));
            let mut t = vec![b'"'];
            match to { 0 => t.extend_from_slice(&a), 1 => t.extend_from_slice(&b), _ => {} }
            t.push(b'"');
            want.push(Want { code: 1, index: i + 1, sw: vec![t] });
        }
        w.push(id);
        if n > 0 { body(&mut w, &all, seg, 0); }
        w.pop();
        wants.push(want);
    }
    w.up(2);
    if after { catalog(&mut w, &[(ids.0, &a), (ids.1, &b)]); }
    let f = decompile(&simple(vec![w.b]));
    check(f.scripts.len() == 2, "another number of scripts");
    expect(&f, ids.0, &a, &wants[0]);
    expect(&f, ids.1, &b, &wants[1]);
    witness("end");
}
/// segments of a script stored out of order, or in different sectors
#[no_mangle]
pub extern "C" fn h_segments() {
    let n = 2 + choose(param(0));
    let mut order: Vec<usize> = vec![];
    while order.len() < n { let k = choose(n); if order.contains(&k) { reject("a segment twice"); } order.push(k); }
    let cut = choose(n + 1);
    let mut sectors = vec![];
    let mut w = W::new();
    catalog(&mut w, &[(1, b"s")]);
    w.path(&[17, 5, 1, 4]);
    for (i, k) in order.iter().enumerate() {
        if i == cut { sectors.push(w.b); w = W::new(); w.path(&[17, 5, 1, 4]); }
        w.seg(*k as u8 + 1, &stored(44 + *k as u8, *k + 1, 0));
    }
    sectors.push(w.b);
    let want: Vec<Want> = (0..n).map(|k| Want { code: 44 + k as u8, index: k + 1, sw: vec![] }).collect();
    expect(&decompile(&simple(sectors)), 1, b"s", &want);
    witness("end");
}
/// a long script, each step with parameters, or many scripts calling one another
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let at = 1 + [0, n / 2, n - 1][choose(3)];
    let mut m = Many::new();
    if flag() {
        m.at(&[17, 1, 1, 1], 20).kv(16, &enc(b"s"));
        let mut want = vec![];
        let mut k = 1;
        let mut i = 1;
        while i <= n {
            let mut all = vec![];
            while i <= n && all.len() < 2800 { all.extend(stored(141, i, 0)); i += 1; }
            m.next();
            m.at(&[17, 5, 1, 4], 10).seg(k, &all);
            k += 1;
        }
        for i in 1..=n {
            let (name, v) = (nth(i, at), nth(i + 1, at + 1));
            m.at(&[17, 5, 1, 5, i, 128], 40).kv(1, &enc(&name));
            let mut calc = vec![0x1a, v.len() as u8];
            calc.extend(enc(&v));
            m.at(&[17, 5, 1, 5, i, 129, 5], 40).kv(5, &calc);
            want.push(Want { code: 141, index: i, sw: vec![name, v] });
        }
        let f = decompile(&m.finish());
        check(f.scripts.len() == 1, "another number of scripts");
        expect(&f, 1, b"s", &want);
    } else {
        let names: Vec<Vec<u8>> = (1..=n).map(|i| nth(i, at)).collect();
        for i in 1..=n { m.at(&[17, 1, 1, i], 40).kv(16, &enc(&names[i - 1])); }
        let target = |i: usize| 1 + (i * 7) % n.min(255);
        for i in 1..=n { let mut all = stored(1, 1, target(i) as u8); all.extend(stored(71, 2, 0)); m.at(&[17, 5, i], 80).kv(4, &all); }
        let f = decompile(&m.finish());
        check(f.scripts.len() == n, "another number of scripts");
        for i in 1..=n {
            let mut t = vec![b'"']; t.extend_from_slice(&names[target(i) - 1]); t.push(b'"');
            expect(&f, i, &names[i - 1], &[Want { code: 1, index: 1, sw: vec![t] }, Want { code: 71, index: 2, sw: vec![] }]);
        }
    }
    witness("end");
}
