//! symex: symbolic execution of whole-program LLVM IR with an SMT solver (libz3) deciding every branch.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
}

/// readable form of a v0-mangled (or legacy) Rust symbol; used for reports and for recognising std's panic entry points
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if s.starts_with("_R") {
        let mut i = 2;
        let mut parts: Vec<String> = vec![];
        while i < b.len() {
            match b[i] {
                b's' => { // disambiguator s[base62]_
                    let mut j = i + 1;
                    while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
                    if j < b.len() && b[j] == b'_' { i = j + 1; } else { i += 1; }
                }
                b'B' => { let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; } i = j + 1; }
                c if c.is_ascii_digit() => {
                    let mut j = i;
                    let mut n = 0usize;
                    if c == b'0' { j += 1; } else { while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; } }
                    if j < b.len() && b[j] == b'_' { j += 1; }
                    if j + n <= b.len() && n > 0 { parts.push(s[j..j + n].to_string()); }
                    i = j + n;
                }
                _ => i += 1,
            }
        }
        parts.join("::")
    } else if s.starts_with("_ZN") {
        let mut i = 3;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut n = 0;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            if i + n > b.len() { break; }
            parts.push(s[i..i + n].to_string());
            i += n;
        }
        parts.pop();
        parts.join("::")
    } else { s.to_string() }
}

fn classify_fn(n: &str) -> FK {
    let d = demangle(n);
    let core = d.starts_with("core::");
    if core && d.starts_with("core::panicking::") {
        let t = &d[17..];
        if t.starts_with("panic_nounwind") || t.starts_with("panic_cannot_unwind") || t.starts_with("panic_in_cleanup") || t.starts_with("panic_misaligned") || t.starts_with("panic_null_pointer") || t.starts_with("panic_invalid_enum") { return FK::Abort; }
        return FK::Panic;
    }
    if core && (d.starts_with("core::option::unwrap_failed") || d.starts_with("core::option::expect_failed") || d.starts_with("core::result::unwrap_failed")
        || d.starts_with("core::cell::panic_already") || d.starts_with("core::cell::panic_") || d.starts_with("core::slice::copy_from_slice_impl::len_mismatch_fail")
        || (d.starts_with("core::str::slice_error_fail")) || (d.starts_with("core::slice::index::slice_") && d.contains("_fail"))) { return FK::Panic; }
    if d.starts_with("alloc::alloc::handle_alloc_error") || d.starts_with("alloc::raw_vec::capacity_overflow") || d.starts_with("alloc::raw_vec::handle_error") { return FK::Abort; }
    if d.contains("rust_begin_unwind") || d.starts_with("std::panicking::") && (d.contains("panic_handler") || d.contains("rust_panic") || d.contains("begin_panic")) { return FK::Abort; }
    if d.starts_with("std::process::abort") { return FK::Abort; }
    FK::Normal
}

struct Shared { stop: *mut u32, viol: *mut u32 }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { let mut o = String::new(); for x in b { let _ = write!(o, "{:02x}", x); } o }

fn report(en: &Engine, pending: usize, dir: &str) {
    let mut o = String::from("{");
    let rec = |r: &PathRec| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"obs\":[{}]}}", js(&r.kind), js(&r.msg), hex(&r.input), r.obs.iter().map(|x| format!("\"{}\"", hex(x))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"paths\":{},\"steps\":{},\"forks\":{},\"decisions\":{},\"pending\":{},\"max_obj\":{},", en.paths, en.steps, en.forks, en.branch_decisions, pending, en.max_obj);
    let _ = write!(o, "\"counts\":{{{}}},", en.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let s = &en.s;
    let _ = write!(o, "\"queries\":{},\"cache_hits\":{},\"model_hits\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},", s.queries, s.cache_hits, s.model_hits, s.sat, s.unsat, s.time, s.max_time);
    let _ = write!(o, "\"wit\":[{}],", en.wit.iter().filter(|(_, i)| en.witseen >> **i & 1 == 1).map(|(k, _)| js(k)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"incon\":[{}],", en.incon.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"viols\":[{}],", en.viols.iter().map(|r| rec(r)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"recs\":[{}],", en.recs.iter().map(|r| rec(r)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<String> = en.funcs.iter().map(|f| demangle(&en.m.funcs[*f as usize].name)).collect();
    fs.sort();
    fs.dedup();
    let _ = write!(o, "\"funcs\":[{}]", fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    if en.o.profile {
        let mut v: Vec<_> = en.prof.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        let _ = write!(o, ",\"prof\":{{{}}}", v.iter().take(60).map(|(k, n)| format!("{}:{}", js(&demangle(&en.m.funcs[**k as usize].name)), n)).collect::<Vec<_>>().join(","));
        let mut v: Vec<_> = en.forkprof.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        let _ = write!(o, ",\"forkprof\":{{{}}}", v.iter().take(60).map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    }
    o.push('}');
    std::fs::write(format!("{}/{}.json", dir, std::process::id()), o).unwrap();
}

fn reset(en: &mut Engine) {
    en.paths = 0; en.steps = 0; en.forks = 0; en.branch_decisions = 0;
    en.counts.clear(); en.recs.clear(); en.viols.clear(); en.incon.clear(); en.witseen = 0; en.funcs.clear();
    en.prof.clear(); en.forkprof.clear(); en.seen_kinds.clear();
    let s = &mut en.s;
    s.queries = 0; s.cache_hits = 0; s.model_hits = 0; s.sat = 0; s.unsat = 0; s.time = 0.0; s.max_time = 0.0;
}

fn explore(en: &mut Engine, sh: &Shared, tok: [i32; 2], dir: &str, jobs: u32) {
    let mut last = Instant::now();
    let mut child = false;
    let mut nsplit = 0u32;
    'work: loop {
        loop {
            if unsafe { *sh.stop } != 0 || en.timed_out() { break; }
            if jobs > 1 && en.work.len() >= 2 && (last.elapsed().as_millis() > 30 || (nsplit < 3 && en.work.len() >= 8)) {
                last = Instant::now();
                let mut c = 0u8;
                if unsafe { read(tok[0], &mut c, 1) } == 1 {
                    nsplit += 1;
                    // give away the older half (every other state) to a forked worker
                    let mut keep = vec![];
                    let mut give = vec![];
                    for (i, s) in std::mem::take(&mut en.work).into_iter().enumerate() { if i % 2 == 0 { give.push(s); } else { keep.push(s); } }
                    let pid = unsafe { fork() };
                    if pid < 0 { eprintln!("fork failed"); unsafe { *sh.stop = 2; } }
                    if pid == 0 {
                        reset(en);
                        en.work = give;
                        child = true;
                        nsplit = 0;
                        last = Instant::now();
                        continue 'work;
                    }
                    en.work = keep;
                }
            }
            let st = match en.work.pop() { Some(s) => s, None => break };
            en.run(st);
            if en.stop { unsafe { *sh.viol = 1; *sh.stop = 1; } }
        }
        break;
    }
    let pend = en.work.len();
    report(en, pend, dir);
    unsafe { write(tok[1], b"x".as_ptr(), 1); }
    if child { unsafe { _exit(0) } }
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 || (a[1] != "run" && a[1] != "funcs" && a[1] != "parse" && a[1] != "version") { eprintln!("usage: symex run IR FN --out DIR [--params a,b] [--time s] [--max-steps n] [--jobs n] [--stop-after n] [--trace] [--profile]"); return 2; }
    if a[1] == "version" { println!("{}", z3::version()); return 0; }
    let text = std::fs::read_to_string(&a[2]).expect("IR file");
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let flag = |k: &str| a.iter().any(|x| x == k);
    let mut m = ir::Module::load(text);
    if a[1] == "funcs" { for f in &m.funcs { println!("{}", demangle(&f.name)); } return 0; }
    if a[1] == "parse" {
        for i in 0..m.funcs.len() { m.body(i as u32); }
        for e in &m.exts { println!("{:?} {}", ext::classify(e), e); }
        return 0;
    }
    let dir = opt("--out").unwrap_or("/tmp/symex.out".into());
    let _ = std::fs::create_dir_all(&dir);
    let entry = match m.fidx.get(&a[3]) { Some(x) => *x, None => { eprintln!("no function {}", a[3]); return 2; } };
    let fk: Vec<FK> = m.funcs.iter().map(|f| classify_fn(&f.name)).collect();
    let ek: Vec<ext::X> = m.exts.iter().map(|n| { let d = demangle(n); if classify_fn(n) != FK::Normal { eprintln!("note: external panic function {}", d); } ext::classify(n) }).collect();
    let params: Vec<u64> = opt("--params").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let jobs: u32 = opt("--jobs").map(|x| x.parse().unwrap()).unwrap_or(8);
    let o = Opts {
        max_steps: opt("--max-steps").map(|x| x.parse().unwrap()).unwrap_or(20_000_000),
        max_paths: u64::MAX,
        time: opt("--time").map(|x| x.parse().unwrap()).unwrap_or(300.0),
        params,
        samples: opt("--samples").map(|x| x.parse().unwrap()).unwrap_or(997),
        stop_after: opt("--stop-after").map(|x| x.parse().unwrap()).unwrap_or(1),
        trace: flag("--trace"), profile: flag("--profile"),
        expr_limit: opt("--expr-limit").map(|x| x.parse().unwrap()).unwrap_or(4000),
    };
    let qt: u32 = opt("--query-timeout").map(|x| x.parse().unwrap()).unwrap_or(30_000);
    let mut en = Engine {
        p: expr::Pool::new(), s: z3::Solver::new(qt), m, o, work: vec![], fk, ek, start: Instant::now(), paths: 0, steps: 0, forks: 0,
        counts: BTreeMap::new(), recs: vec![], viols: vec![], incon: vec![], wit: HashMap::new(), witseen: 0, funcs: HashSet::new(), stop: false,
        prof: HashMap::new(), forkprof: HashMap::new(), branch_decisions: 0, ext_addrs: HashMap::new(), max_obj: 0, seen_kinds: HashMap::new(),
    };
    if let Some(d) = opt("--dump") { en.s.dump = Some((d, 0)); }
    let mut tok = [0i32; 2];
    let sh;
    unsafe {
        assert!(pipe2(tok.as_mut_ptr(), 0o4000) == 0);
        for _ in 0..jobs.saturating_sub(1) { write(tok[1], b"x".as_ptr(), 1); }
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u32;
        sh = Shared { stop: p, viol: p.add(1) };
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let st = en.init_state(entry);
    en.work.push(st);
    explore(&mut en, &sh, tok, &dir, jobs);
    // every forked worker is re-parented here
    let mut bad = 0;
    loop {
        let mut s = 0i32;
        let p = unsafe { waitpid(-1, &mut s, 0) };
        if p < 0 { break; }
        if s != 0 { bad += 1; eprintln!("worker {} ended with status {:#x}", p, s); unsafe { *sh.stop = 2; } }
    }
    if bad > 0 { return 3; }
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r);
}
