//! Blocks of a script.
use crate::rt::*;
use crate::hx_burnkit::*;
use crate::hx_C02::*;

/// statements within a budget: their text and the steps they stand for
fn body(s: &mut S, want: &mut Vec<Step>, depth: usize, left: &mut usize) {
    loop {
        if *left == 0 { return; }
        let k = choose(if depth == 0 { 2 } else { 7 });
        if k == 0 { return; }
        *left -= 1;
        let cond = |s: &mut S, want: &mut Vec<Step>, word: &str, code: u8, left: usize| {
            let a = vec![b'a' + left as u8, b'=', b'=', printable_but(b"\"()],"), b'1'];
            s.raw(word.as_bytes()).raw(b"(").raw(&a).raw(b") {\n");
            want.push(Step { code, args: vec![a] });
        };
        match k {
            1 => { let a = vec![b'a' + *left as u8]; s.raw(b"exit_loop_if(").raw(&a).raw(b");\n"); want.push(Step { code: 72, args: vec![a] }); }
            2 => { s.raw(b"loop {\n"); want.push(Step { code: 71, args: vec![] }); body(s, want, depth - 1, left); s.raw(b"}\n"); want.push(Step { code: 73, args: vec![] }); }
            _ => {
                cond(s, want, "if", 68, *left);
                body(s, want, depth - 1, left);
                s.raw(b"}\n");
                if k == 5 || k == 6 { for i in 0..1 + choose(2) { cond(s, want, "elif", 125, *left + 8 * (i + 1)); body(s, want, depth - 1, left); s.raw(b"}\n"); } }
                if k == 4 || k == 6 { s.raw(b"else {\n"); want.push(Step { code: 69, args: vec![] }); body(s, want, depth - 1, left); s.raw(b"}\n"); }
                want.push(Step { code: 70, args: vec![] });
            }
        }
    }
}
/// any blocks in any order, nested in any way
#[no_mangle]
pub extern "C" fn h_blocks() {
    let mut s = S::new();
    let mut want = vec![];
    let mut left = param(1);
    s.raw(b"script: [ define s() {\n");
    body(&mut s, &mut want, param(0), &mut left);
    s.raw(b"}\n define t() { exit_script(z); } ]");
    let f = s.compile();
    check(f.scripts.len() == 2, "another number of scripts");
    expect(&script(&f, 1).instructions, &want);
    expect(&script(&f, 2).instructions, &[Step { code: 103, args: vec![b"z".to_vec()] }]);
    witness("end");
}
/// long chains of branches, deep nesting
#[no_mangle]
pub extern "C" fn h_shape() {
    let n = choose(param(0) + 1);
    let deep = flag();
    let mut s = S::new();
    let mut want: Vec<Step> = vec![];
    s.raw(b"script: [ define s() { ");
    let step = |s: &mut S, want: &mut Vec<Step>, c: u8| { s.raw(b"assert(").raw(&[c]).raw(b"); "); want.push(Step { code: 255, args: vec![vec![c]] }); };
    if deep {
        let kinds: Vec<usize> = (0..n).map(|_| choose(3)).collect();
        for (i, k) in kinds.iter().enumerate() {
            match k { 0 => { s.raw(b"loop{"); want.push(Step { code: 71, args: vec![] }); } 1 => { s.raw(b"if(c){"); want.push(Step { code: 68, args: vec![b"c".to_vec()] }); } _ => { s.raw(b"if(c){}else{"); want.push(Step { code: 68, args: vec![b"c".to_vec()] }); want.push(Step { code: 69, args: vec![] }); } }
            step(&mut s, &mut want, b'a' + i as u8);
        }
        for (i, k) in kinds.iter().enumerate().rev() { s.raw(b"}"); want.push(Step { code: if *k == 0 { 73 } else { 70 }, args: vec![] }); step(&mut s, &mut want, b'A' + i as u8); }
    } else {
        s.raw(b"if(c){");
        want.push(Step { code: 68, args: vec![b"c".to_vec()] });
        for i in 0..n { if flag() { step(&mut s, &mut want, b'a' + i as u8); } s.raw(b"}elif(d){"); want.push(Step { code: 125, args: vec![b"d".to_vec()] }); }
        if flag() { s.raw(b"}else{"); want.push(Step { code: 69, args: vec![] }); if flag() { step(&mut s, &mut want, b'y'); } }
        s.raw(b"}");
        want.push(Step { code: 70, args: vec![] });
    }
    step(&mut s, &mut want, b'z');
    s.raw(b"} ]");
    let f = s.compile();
    expect(&script(&f, 1).instructions, &want);
    witness("end");
}
/// many blocks one after the other, or inside one another, of one kind except one
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let (deep, kind, other) = (flag(), choose(4), choose(4));
    let at = [0, n / 2, n - 1][choose(3)];
    let mut s = S::new();
    let mut want: Vec<Step> = vec![];
    s.raw(b"script: [ define s() { ");
    fn open(s: &mut S, want: &mut Vec<Step>, k: usize) {
        if k == 0 { s.raw(b"loop {"); want.push(Step { code: 71, args: vec![] }); return; }
        s.raw(b"if (c) {");
        want.push(Step { code: 68, args: vec![b"c".to_vec()] });
        if k == 2 || k == 3 { s.raw(b"} elif (d) {"); want.push(Step { code: 125, args: vec![b"d".to_vec()] }); }
        if k == 3 { s.raw(b"} else {"); want.push(Step { code: 69, args: vec![] }); }
    }
    fn close(s: &mut S, want: &mut Vec<Step>, k: usize) { s.raw(b"}\n"); want.push(Step { code: if k == 0 { 73 } else { 70 }, args: vec![] }); }
    fn mark(s: &mut S, want: &mut Vec<Step>, i: usize) { let a = format!("m{}", i).into_bytes(); s.raw(b"assert(").raw(&a).raw(b");"); want.push(Step { code: 255, args: vec![a] }); }
    let k = |i: usize| if i == at { other } else { kind };
    for i in 0..n { open(&mut s, &mut want, k(i)); mark(&mut s, &mut want, i); if !deep { close(&mut s, &mut want, k(i)); } }
    if deep { for i in (0..n).rev() { close(&mut s, &mut want, k(i)); mark(&mut s, &mut want, i); } }
    s.raw(b"} define t() { exit_script(z); } ]");
    let f = s.compile();
    check(f.scripts.len() == 2, "another number of scripts");
    expect(&script(&f, 1).instructions, &want);
    expect(&script(&f, 2).instructions, &[Step { code: 103, args: vec![b"z".to_vec()] }]);
    witness("end");
}
