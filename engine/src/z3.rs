//! Minimal hand-written FFI to libz3 (C API) and a sliced, cached QF_BV query interface.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {}: {:?}", e, m);
    std::process::exit(3);
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: HashMap<E, P, BuildFx>,
    bo: HashMap<E, P, BuildFx>,
    vars: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    recent: Vec<Vec<u8>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<(String, u64)>,
}

pub enum Res { Sat(Vec<u8>), Unsat, Unknown }

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, on_err);
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let s = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, s.as_ptr()), timeout_ms);
            let s = CString::new("random_seed").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, s.as_ptr()), 1);
            Z3_solver_set_params(ctx, solver, p);
            Solver { ctx, solver, bv: HashMap::default(), bo: HashMap::default(), vars: HashMap::new(), cache: HashMap::new(),
                recent: vec![], queries: 0, cache_hits: 0, model_hits: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0, dump: None }
        }
    }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.ctx, a) }; a }
    fn num(&self, w: u32, k: u128) -> P {
        unsafe {
            if w <= 64 { return self.keep(Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, w))); }
            let h = self.keep(Z3_mk_unsigned_int64(self.ctx, (k >> 64) as u64, Z3_mk_bv_sort(self.ctx, w - 64)));
            let l = self.keep(Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, 64)));
            self.keep(Z3_mk_concat(self.ctx, h, l))
        }
    }
    /// Boolean form of a width-1 expression.
    fn boo(&mut self, p: &Pool, e: E) -> P {
        if let Some(&x) = self.bo.get(&e) { return x; }
        let n = p.node(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::And => { let v = [self.boo(p, n.a), self.boo(p, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boo(p, n.a), self.boo(p, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => {
                    if p.is_const(n.b) == Some(1) { let a = self.boo(p, n.a); Z3_mk_not(c, a) }
                    else { let (a, b) = (self.boo(p, n.a), self.boo(p, n.b)); Z3_mk_xor(c, a, b) }
                }
                Op::Eq if p.w(n.a) == 1 => { let (a, b) = (self.boo(p, n.a), self.boo(p, n.b)); Z3_mk_eq(c, a, b) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bvv(p, n.a), self.bvv(p, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Ite => { let (i, a, b) = (self.boo(p, n.a), self.boo(p, n.b), self.boo(p, n.c)); Z3_mk_ite(c, i, a, b) }
                _ => { let a = self.bvv_raw(p, e); let one = self.num(1, 1); Z3_mk_eq(c, a, one) }
            }
        };
        self.keep(r);
        self.bo.insert(e, r);
        r
    }
    fn bvv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&x) = self.bv.get(&e) { return x; }
        let n = p.node(e);
        let r = if n.w == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Ite | Op::Const) {
            let b = self.boo(p, e);
            let (o, z) = (self.num(1, 1), self.num(1, 0));
            let r = unsafe { Z3_mk_ite(self.ctx, b, o, z) };
            self.keep(r)
        } else { self.bvv_raw(p, e) };
        self.bv.insert(e, r);
        r
    }
    fn bvv_raw(&mut self, p: &Pool, e: E) -> P {
        let n = p.node(e);
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    let s = CString::new(format!("b{}", n.a)).unwrap();
                    let v = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8));
                    self.vars.insert(n.a, v);
                    v
                }
                Op::Extract => { let a = self.bvv(p, n.a); Z3_mk_extract(c, n.b + n.w - 1, n.b, a) }
                Op::ZExt => { let a = self.bvv(p, n.a); Z3_mk_zero_ext(c, n.w - p.w(n.a), a) }
                Op::SExt => { let a = self.bvv(p, n.a); Z3_mk_sign_ext(c, n.w - p.w(n.a), a) }
                Op::Ite => { let (i, a, b) = (self.boo(p, n.a), self.bvv(p, n.b), self.bvv(p, n.c)); Z3_mk_ite(c, i, a, b) }
                _ => {
                    let (a, b) = (self.bvv(p, n.a), self.bvv(p, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => panic!("bvv_raw {:?}", n.op),
                    }
                }
            };
            self.keep(r)
        }
    }

    /// Is pc /\ extra satisfiable? `base` is a model of pc, used to complete the sliced model.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], extra: E, base: &[u8]) -> Res {
        match p.is_const(extra) { Some(0) => return Res::Unsat, Some(_) => return Res::Sat(base.to_vec()), None => {} }
        // independence slicing
        let mut vs = p.vsets[p.vars(extra) as usize];
        let mut taken = vec![false; pc.len()];
        let mut slice = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if taken[i] { continue; }
                let cv = &p.vsets[p.vars(c) as usize];
                if (0..cv.len()).any(|j| cv[j] & vs[j] != 0) {
                    taken[i] = true;
                    ch = true;
                    slice.push(c);
                    for j in 0..vs.len() { vs[j] |= cv[j]; }
                }
            }
            if !ch { break; }
        }
        slice.push(extra);
        slice.sort();
        slice.dedup();
        if let Some(r) = self.cache.get(&slice) {
            self.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(d) => { let mut m = base.to_vec(); for (i, v) in d { if m.len() <= *i as usize { m.resize(*i as usize + 1, 0); } m[*i as usize] = *v; } Res::Sat(m) }
            };
        }
        // recent models: a stored solver model that satisfies the whole slice is a SAT answer
        for k in (0..self.recent.len()).rev() {
            p.new_model();
            let r = &self.recent[k];
            if slice.iter().all(|&c| p.eval(c, r) == 1) {
                self.model_hits += 1;
                let mut m = base.to_vec();
                let n = r.len().max(m.len());
                m.resize(n, 0);
                for i in 0..n { if vs[i / 64] >> (i % 64) & 1 == 1 { m[i] = *r.get(i).unwrap_or(&0); } }
                return Res::Sat(m);
            }
        }
        let t = Instant::now();
        let asts: Vec<P> = slice.iter().map(|&c| self.boo(p, c)).collect();
        let res;
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for a in asts { Z3_solver_assert(self.ctx, self.solver, a); }
            self.queries += 1;
            let r = Z3_solver_check(self.ctx, self.solver);
            if let Some((dir, every)) = &self.dump {
                if self.queries % *every == 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    let ans = match r { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(format!("{}/q{}-{}-{}.smt2", dir, std::process::id(), self.queries, ans), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                }
            }
            res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = base.to_vec();
                    let mut diff = vec![];
                    for i in 0..MAXVARS as u32 {
                        if vs[i as usize / 64] >> (i % 64) & 1 == 0 { continue; }
                        let v = self.vars[&i];
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, v, true, &mut o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.ctx, o, &mut u);
                        if out.len() <= i as usize { out.resize(i as usize + 1, 0); }
                        out[i as usize] = u as u8;
                        diff.push((i, u as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    // sanity: the solver's model must satisfy the slice under our own evaluator
                    p.new_model();
                    for &c in &slice { if p.eval(c, &out) != 1 { eprintln!("engine error: model does not satisfy constraint {}", c); std::process::exit(3); } }
                    self.cache.insert(slice, Some(diff));
                    if self.recent.len() >= 6 { self.recent.remove(0); }
                    self.recent.push(out.clone());
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; self.cache.insert(slice, None); Res::Unsat }
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
        }
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        res
    }
}
