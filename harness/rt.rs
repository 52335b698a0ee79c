//! Harness runtime. In the symbolic build the primitives are left undefined and supplied by the executor;
//! in the native build they read one concrete input (a counterexample or a sampled path) from a file.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __sx_byte() -> u8;
        pub fn __sx_assume(c: bool);
        pub fn __sx_fail(p: *const u8, n: usize) -> !;
        pub fn __sx_reject(p: *const u8, n: usize) -> !;
        pub fn __sx_witness(p: *const u8, n: usize);
        pub fn __sx_observe(p: *const u8, n: usize);
        pub fn __sx_file_put(p: *const u8, n: usize, d: *const u8, dn: usize);
        pub fn __sx_file_get(p: *const u8, n: usize, d: *mut u8, cap: usize) -> u64;
        pub fn __sx_param(i: u64) -> u64;
        pub fn __sx_panic_ok(c: bool);
        pub fn __sx_concretize(v: u64) -> u64;
        pub fn __sx_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn __sx_args(n: u64, p: *const *const u8);
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::{Cell, RefCell};
    thread_local! {
        static IN: RefCell<Option<(Vec<u8>, usize)>> = RefCell::new(None);
    }
    static PANIC_OK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub fn panic_is_ok() -> bool { PANIC_OK.load(std::sync::atomic::Ordering::SeqCst) }
    fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
    pub fn emit(kind: &str, b: &[u8]) {
        use std::io::Write;
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "SX-{} {}", kind, hex(b));
        let _ = o.flush();
    }
    fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { unsafe { std::slice::from_raw_parts(p, n) } }
    pub unsafe fn __sx_byte() -> u8 {
        IN.with(|i| {
            let mut i = i.borrow_mut();
            if i.is_none() {
                let h = std::fs::read_to_string(std::env::var("SX_INPUT").expect("SX_INPUT")).expect("input file");
                let h = h.trim();
                *i = Some(((0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect(), 0));
            }
            let (v, k) = i.as_mut().unwrap();
            *k += 1;
            v.get(*k - 1).copied().unwrap_or(0)
        })
    }
    pub unsafe fn __sx_assume(c: bool) { if !c { emit("END", b"assume"); std::process::exit(0); } }
    pub unsafe fn __sx_fail(p: *const u8, n: usize) -> ! { let mut m = b"fail ".to_vec(); m.extend_from_slice(sl(p, n)); emit("END", &m); std::process::exit(0) }
    pub unsafe fn __sx_reject(p: *const u8, n: usize) -> ! { let mut m = b"reject ".to_vec(); m.extend_from_slice(sl(p, n)); emit("END", &m); std::process::exit(0) }
    pub unsafe fn __sx_witness(p: *const u8, n: usize) { emit("WIT", sl(p, n)); }
    pub unsafe fn __sx_observe(p: *const u8, n: usize) { emit("OBS", sl(p, n)); }
    // the process runs inside a scratch directory made by the checker
    pub unsafe fn __sx_file_put(p: *const u8, n: usize, d: *const u8, dn: usize) { if let Some(x) = std::path::Path::new(std::str::from_utf8(sl(p, n)).unwrap()).parent() { let _ = std::fs::create_dir_all(x); } std::fs::write(std::str::from_utf8(sl(p, n)).unwrap(), sl(d, dn)).unwrap(); }
    pub unsafe fn __sx_file_get(p: *const u8, n: usize, d: *mut u8, cap: usize) -> u64 {
        match std::fs::read(std::str::from_utf8(sl(p, n)).unwrap()) {
            Ok(v) => { let k = v.len().min(cap); std::ptr::copy_nonoverlapping(v.as_ptr(), d, k); v.len() as u64 }
            Err(_) => u64::MAX,
        }
    }
    pub unsafe fn __sx_param(i: u64) -> u64 { std::env::var("SX_PARAMS").unwrap_or_default().split(',').nth(i as usize).and_then(|x| x.parse().ok()).unwrap_or(0) }
    pub unsafe fn __sx_panic_ok(c: bool) { PANIC_OK.store(c, std::sync::atomic::Ordering::SeqCst); }
    pub unsafe fn __sx_concretize(v: u64) -> u64 { v }
    pub unsafe fn __sx_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
    // the same pseudo-random hash seeds as in the symbolic run, so that map iteration order is reproduced
    static RND: std::sync::Mutex<u64> = std::sync::Mutex::new(0x1234_5678_9abc_def1);
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _fl: u32) -> isize {
        let mut s = RND.lock().unwrap();
        for i in 0..n { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *p.add(i) = (*s >> 33) as u8; }
        n as isize
    }
}

/// a fresh symbolic byte
#[inline(never)] pub fn byte() -> u8 { unsafe { imp::__sx_byte() } }
#[inline(never)] pub fn assume(c: bool) { unsafe { imp::__sx_assume(c) } }
#[inline(never)] pub fn fail(m: &str) -> ! { unsafe { imp::__sx_fail(m.as_ptr(), m.len()) } }
#[inline(never)] pub fn reject(m: &str) -> ! { unsafe { imp::__sx_reject(m.as_ptr(), m.len()) } }
#[inline(never)] pub fn witness(m: &str) { unsafe { imp::__sx_witness(m.as_ptr(), m.len()) } }
#[inline(never)] pub fn observe(b: &[u8]) { unsafe { imp::__sx_observe(b.as_ptr(), b.len()) } }
#[inline(never)] pub fn file_put(n: &str, d: &[u8]) { unsafe { imp::__sx_file_put(n.as_ptr(), n.len(), d.as_ptr(), d.len()) } }
pub fn file_get(n: &str, cap: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; cap];
    let k = unsafe { imp::__sx_file_get(n.as_ptr(), n.len(), v.as_mut_ptr(), cap) };
    if k == u64::MAX { None } else { v.truncate(k as usize); Some(v) }
}
#[inline(never)] pub fn param(i: u64) -> usize { unsafe { imp::__sx_param(i) as usize } }
/// panics from here on are an accepted way for the code under test to refuse its input
#[inline(never)] pub fn panic_ok(c: bool) { unsafe { imp::__sx_panic_ok(c) } }
/// split the exploration over every feasible value
#[inline(never)] pub fn split(v: usize) -> usize { unsafe { imp::__sx_concretize(v as u64) as usize } }
/// a conditional value without a branch
#[inline(never)] pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { imp::__sx_ite(c, a, b) } }
pub fn check(c: bool, m: &str) { if !c { fail(m) } }

/// a symbolic number in 0..n, one path per value
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0; }
    let b = byte();
    assume((b as usize) < n);
    split(b as usize)
}
/// a symbolic number in 0..n, kept symbolic
pub fn below(n: usize) -> usize { let b = byte(); assume((b as usize) < n); b as usize }
pub fn flag() -> bool { choose(2) == 1 }
pub fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| byte()).collect() }
/// a symbolic byte restricted to the given set
pub fn one_of(set: &[u8]) -> u8 {
    let b = byte();
    // the interval first: it lets the executor simplify what it computes from the byte
    let (lo, hi) = (*set.iter().min().unwrap(), *set.iter().max().unwrap());
    assume(b >= lo);
    assume(b <= hi);
    let mut ok = false;
    for &s in set { ok |= b == s; }
    assume(ok);
    b
}
pub fn string(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }

/// runs the program with the given arguments; what it announces in colour comes back
#[cfg(not(feature = "native"))]
pub fn run_main(args: &[&str]) -> Vec<String> {
    let mut v: Vec<*const u8> = vec![];
    for a in std::iter::once(&"burn_fm").chain(args) { let mut s = a.as_bytes().to_vec(); s.push(0); v.push(s.as_ptr()); std::mem::forget(s); }
    v.push(std::ptr::null());
    unsafe { imp::__sx_args(v.len() as u64 - 1, v.as_ptr()) }
    std::mem::forget(v);
    crate::main();
    color_print::take()
}
/// (natively as a process of its own, in the scratch directory the checker made)
#[cfg(feature = "native")]
pub fn run_main(args: &[&str]) -> Vec<String> {
    let _ = std::fs::create_dir_all("inspect_output");
    let ok = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("SX_MAIN", if imp::panic_is_ok() { "ok" } else { "" }).status().unwrap().success();
    if !ok { std::process::exit(0); }
    match std::fs::read_to_string("sx_messages") { Ok(t) => t.split('\u{1}').filter(|l| !l.is_empty()).map(|l| l.to_string()).collect(), Err(_) => vec![] }
}
#[cfg(feature = "native")]
pub fn native_child() {
    panic_ok(std::env::var("SX_MAIN").unwrap() == "ok");
    hook(7);
    crate::main();
    std::fs::write("sx_messages", color_print::take().join("\u{1}")).unwrap();
}

#[cfg(feature = "native")]
fn hook(code: i32) {
    std::panic::set_hook(Box::new(move |i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if imp::panic_is_ok() { format!("reject panic at {}", l) } else { format!("panic {}", l) };
        imp::emit("END", m.as_bytes());
        std::process::exit(code);
    }));
}
#[cfg(feature = "native")]
pub fn native_main(f: extern "C" fn()) {
    hook(0);
    f();
    imp::emit("END", b"ok");
}
