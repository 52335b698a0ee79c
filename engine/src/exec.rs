//! Symbolic interpreter: states, forking, memory access with symbolic addresses, path exploration.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub fi: u32, pub func: Rc<Func>, pub blk: u32, pub ip: u32, pub prev: u32, pub regs: Vec<Val>, pub allocas: Vec<u64>, pub ret: Option<u32> }

#[derive(Clone)]
pub struct FileData { pub d: Vec<u8>, pub s: Vec<E> }
#[derive(Clone)]
pub struct Fd { pub name: String, pub pos: u64, pub app: bool }

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub fixed: VarSet,
    /// per input byte, the values the single-byte facts of the path leave open (an over-approximation)
    pub dom: Vec<[u64; 4]>,
    pub nvars: u32,
    pub model: Vec<u8>,
    pub steps: u64,
    pub files: BTreeMap<String, FileData>,
    pub fds: BTreeMap<u64, Fd>,
    pub obs: Vec<FileData>,
    pub panic_ok: bool,
    pub wit: u64,
    pub rnd: u64,
    pub forks: u32,
    pub note: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum End { Ok, Assume, Reject(String), Fail(String), Panic(String), Crash(String), Hang, Inconclusive(String) }

pub struct PathRec { pub kind: String, pub msg: String, pub input: Vec<u8>, pub obs: Vec<Vec<u8>> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK { Normal, Panic, Abort, SipNew }

pub struct Opts { pub max_steps: u64, pub max_paths: u64, pub time: f64, pub params: Vec<u64>, pub samples: u64, pub stop_after: usize, pub trace: bool, pub profile: bool, pub expr_limit: u32 }

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub o: Opts,
    pub work: Vec<State>,
    pub fk: Vec<FK>,
    pub ek: Vec<crate::ext::X>,
    pub start: Instant,
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub counts: BTreeMap<String, u64>,
    pub recs: Vec<PathRec>,
    pub viols: Vec<PathRec>,
    pub incon: Vec<String>,
    pub wit: HashMap<String, u32>,
    pub witseen: u64,
    pub funcs: HashSet<u32>,
    pub stop: bool,
    pub prof: HashMap<u32, u64>,
    pub forkprof: HashMap<String, u64>,
    pub branch_decisions: u64,
    pub ext_addrs: HashMap<u64, u32>,
    pub max_obj: usize,
    pub seen_kinds: HashMap<String, u64>,
}

pub enum Ctl { Next, Jump, End(End) }
pub type R<T> = Result<T, End>;

impl Engine {
    pub fn init_state(&mut self, entry: u32) -> State {
        let mut mem = Mem::new(self.m.next_obj);
        for g in &self.m.globals {
            mem.insert(Obj { base: g.addr, data: g.init.clone(), sym: vec![], ro: g.ro, heap: false });
        }
        mem.insert(Obj { base: 2 << SLOT, data: vec![0; 16], sym: vec![], ro: false, heap: false });
        let f = self.m.body(entry);
        self.funcs.insert(entry);
        State {
            cur: Frame { fi: entry, regs: vec![Val::I(0); f.nregs as usize], func: f, blk: 0, ip: 0, prev: 0, allocas: vec![], ret: None },
            stack: vec![], mem, pc: vec![], fixed: [0; MAXVARS / 64], dom: vec![], nvars: 0, model: vec![], steps: 0,
            files: BTreeMap::new(), fds: BTreeMap::new(), obs: vec![], panic_ok: false, wit: 0, rnd: 0x1234_5678_9abc_def1, forks: 0, note: vec![],
        }
    }
    #[inline]
    pub fn v(&self, st: &State, o: &Opd) -> Val { match o { Opd::R(r) => st.cur.regs[*r as usize].clone(), Opd::C(v) => v.clone() } }
    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v { Val::S(e) => { debug_assert_eq!(self.p.w(*e), w); *e } Val::I(k) => self.p.konst(w, *k as u128), Val::W(k) => self.p.konst(w, **k), _ => panic!("aggregate as expr") }
    }
    #[inline]
    pub fn ve(&self, e: E) -> Val { match self.p.is_const(e) { Some(k) => Val::of(self.p.w(e), k), None => Val::S(e) } }

    fn subset_fixed(&self, st: &State, e: E) -> bool {
        let vs = &self.p.vsets[self.p.vars(e) as usize];
        (0..vs.len()).all(|i| vs[i] & !st.fixed[i] == 0)
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 { self.p.new_model(); self.p.eval(e, &st.model) }

    pub fn add_pc(&mut self, st: &mut State, c: E) {
        if self.p.is_const(c).is_some() { return; }
        let n = self.p.node(c);
        if n.op == Op::And && n.w == 1 { self.add_pc(st, n.a); self.add_pc(st, n.b); return; }
        if n.op == Op::Eq && self.p.is_const(n.b).is_some() {
            let na = self.p.node(n.a);
            if na.op == Op::Var { st.fixed[na.a as usize / 64] |= 1 << (na.a % 64); }
        }
        if let Some((v, t)) = self.p.truth(c) {
            if st.dom.len() <= v { st.dom.resize(v + 1, [u64::MAX; 4]); }
            for i in 0..4 { st.dom[v][i] &= t[i]; }
        }
        // x < 1 style facts are normalised to Eq by the simplifier
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    fn note_fork(&mut self, st: &mut State, sib: &mut State, what: &str) {
        self.forks += 1;
        st.forks += 1;
        sib.forks += 1;
        if self.o.profile {
            let mut key = format!("{} in {}", what, crate::demangle(&self.m.funcs[st.cur.fi as usize].name));
            for f in st.stack.iter().rev().take(3) { key.push_str(" < "); key.push_str(&crate::demangle(&self.m.funcs[f.fi as usize].name)); }
            *self.forkprof.entry(key).or_insert(0) += 1;
        }
    }
    /// decide a symbolic condition on this path; pushes the sibling (positioned by `pos`) when both sides are feasible
    fn decide(&mut self, st: &mut State, c: E, what: &str, pos: &mut dyn FnMut(&mut Engine, &mut State, bool)) -> R<bool> {
        self.branch_decisions += 1;
        let b = self.eval(st, c) == 1;
        if self.subset_fixed(st, c) { return Ok(b); }
        let nc = self.p.not(c);
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        match self.s.check(&mut self.p, &st.pc, other, &st.model) {
            Res::Unsat => {}
            Res::Unknown => return Err(End::Inconclusive("solver returned unknown".into())),
            Res::Sat(m2) => {
                let mut sib = st.clone();
                sib.model = m2;
                self.add_pc(&mut sib, other);
                self.note_fork(st, &mut sib, what);
                pos(self, &mut sib, !b);
                self.work.push(sib);
                self.add_pc(st, mine);
            }
        }
        Ok(b)
    }
    /// condition decided with the sibling re-executing the current instruction
    pub fn decide_here(&mut self, st: &mut State, c: E, what: &str) -> R<bool> {
        if let Some(k) = self.p.is_const(c) { return Ok(k == 1); }
        self.decide(st, c, what, &mut |_, _, _| {})
    }
    /// make a value concrete by exhaustive forking (sibling re-executes the current instruction with v excluded)
    pub fn conc(&mut self, st: &mut State, v: &Val, what: &str) -> R<u128> {
        match v {
            Val::I(k) => Ok(*k as u128),
            Val::W(k) => Ok(**k),
            Val::A(_) => panic!("conc aggregate"),
            Val::S(e) => {
                let e = *e;
                let k = self.eval(st, e);
                if self.subset_fixed(st, e) { return Ok(k); }
                let w = self.p.w(e);
                let kc = self.p.konst(w, k);
                let eq = self.p.bin(Op::Eq, e, kc);
                let ne = self.p.not(eq);
                self.branch_decisions += 1;
                match self.s.check(&mut self.p, &st.pc, ne, &st.model) {
                    Res::Unsat => {}
                    Res::Unknown => return Err(End::Inconclusive("solver returned unknown".into())),
                    Res::Sat(m2) => {
                        let mut sib = st.clone();
                        sib.model = m2;
                        self.add_pc(&mut sib, ne);
                        self.note_fork(st, &mut sib, what);
                        self.work.push(sib);
                    }
                }
                self.add_pc(st, eq);
                Ok(k)
            }
        }
    }

    // ---------- memory ----------
    pub fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let o = match st.mem.find(addr, n as u64) { Some(o) => o, None => return Err(self.fault(st, "read", addr, n as u64)) };
        let off = (addr - o.base) as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&x| x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            if w <= 64 { let k = u64::from_le_bytes(b[..8].try_into().unwrap()); return Ok(Val::I(if w == 64 { k } else { k & ((1u64 << w) - 1) })); }
            return Ok(Val::of(w, u128::from_le_bytes(b) & mask(w)));
        }
        let mut e = concat_le(&mut self.p, &o.data[off..off + n], &o.sym[off..off + n]);
        if (n as u32) * 8 != w { e = self.p.extract(e, w - 1, 0); }
        if self.p.is_const(e).is_none() && self.subset_fixed(st, e) { let k = self.eval(st, e); return Ok(Val::of(w, k)); }
        Ok(self.ve(e))
    }
    pub fn load(&mut self, st: &State, addr: u64, ty: TyId) -> R<Val> {
        match &self.m.tys[ty as usize] {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let w = self.m.bits(ty); self.load_scalar(st, addr, w) }
            Ty::St(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = self.m.nfields(ty);
                let mut v = Vec::with_capacity(n);
                for i in 0..n { let (o, t) = self.m.field_off(ty, i); v.push(self.load(st, addr + o, t)?); }
                Ok(Val::A(Rc::new(v)))
            }
            t => panic!("load {:?}", t),
        }
    }
    pub fn fault(&self, st: &State, what: &str, addr: u64, n: u64) -> End {
        let fname = crate::demangle(&self.m.funcs[st.cur.fi as usize].name);
        let o = st.mem.get(addr).map(|o| (o.base, o.data.len()));
        End::Crash(format!("invalid {} of {} bytes at {:#x} (object {:x?}) in {}", what, n, addr, o, fname))
    }
    pub fn store_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let base = match st.mem.find(addr, n as u64) { Some(o) if !o.ro => o.base, _ => return Err(self.fault(st, "write", addr, n as u64)) };
        let o = st.mem.get_mut(base);
        let off = (addr - base) as usize;
        match v {
            Val::S(e) => {
                let mut e = *e;
                if (n as u32) * 8 != w { e = self.p.zext(e, n as u32 * 8); }
                if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                for i in 0..n {
                    let b = self.p.extract(e, i as u32 * 8 + 7, i as u32 * 8);
                    match self.p.is_const(b) { Some(k) => { o.data[off + i] = k as u8; o.sym[off + i] = 0; } None => { o.sym[off + i] = b; } }
                }
            }
            v => {
                let k = v.conc().unwrap().to_le_bytes();
                o.data[off..off + n].copy_from_slice(&k[..n]);
                if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = 0; } }
            }
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        match v {
            Val::A(xs) => {
                let xs = xs.clone();
                for (i, x) in xs.iter().enumerate() { let (o, t) = self.m.field_off(ty, i); self.store(st, addr + o, t, x)?; }
                Ok(())
            }
            v => { let w = self.m.bits(ty); self.store_scalar(st, addr, w, v) }
        }
    }
    fn stride(&self, e: E) -> u128 {
        fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
        let n = self.p.node(e);
        match n.op {
            Op::Const => n.k,
            Op::Mul => { match self.p.is_const(n.b) { Some(k) => k * self.stride(n.a).max(1), None => 1 } }
            Op::Add | Op::Sub => gcd(self.stride(n.a), self.stride(n.b)),
            Op::Concat => { if self.p.is_const(n.b) == Some(0) { self.stride(n.a).max(1) << self.p.w(n.b) } else { 1 } }
            Op::ZExt => self.stride(n.a),
            Op::Ite => gcd(self.stride(n.b), self.stride(n.c)),
            _ => 1,
        }
    }
    /// load through a symbolic address: an if-then-else tree over the feasible offsets of one object
    fn load_sym(&mut self, st: &mut State, pe: E, ty: TyId) -> R<Val> {
        let size = self.m.size_align(ty).0;
        let a0 = self.eval(st, pe) as u64;
        let scalar = matches!(self.m.tys[ty as usize], Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64);
        let (base, len) = match st.mem.find(a0, size) { Some(o) => (o.base, o.data.len() as u64), None => {
            let a = self.conc(st, &Val::S(pe), "addr")? as u64;
            return self.load(st, a, ty);
        } };
        if !scalar || self.subset_fixed(st, pe) { let a = self.conc(st, &Val::S(pe), "addr")? as u64; return self.load(st, a, ty); }
        let bk = self.p.konst(64, base as u128);
        let off = self.p.bin(Op::Sub, pe, bk);
        let lim = self.p.konst(64, (len - size) as u128);
        let inb = self.p.bin(Op::Ule, off, lim);
        let ok = self.decide_here(st, inb, "addr-object")?;
        debug_assert!(ok);
        // enumerate offsets
        let nd = self.p.node(off);
        let (var, c0) = match (nd.op, self.p.is_const(nd.b)) { (Op::Add, Some(k)) => (nd.a, k as u64), _ => (off, 0) };
        let s = self.stride(var).max(1) as u64;
        let mt = self.p.meta[off as usize];
        let (mut lo, hi) = (0u64, len - size);
        let hi = if mt.hi < hi as u128 { mt.hi as u64 } else { hi };
        if mt.lo > lo as u128 { lo = mt.lo as u64; }
        // first offset >= lo congruent to c0 mod s
        let r = c0 % s;
        let mut x = lo - lo % s + r;
        if x < lo { x += s; }
        let mut offs = vec![];
        while x <= hi { offs.push(x); x += s; if offs.len() > 2048 { break; } }
        if offs.is_empty() || offs.len() > 2048 { let a = self.conc(st, &Val::S(pe), "addr")? as u64; return self.load(st, a, ty); }
        let w = self.m.bits(ty);
        let mut leaves = vec![];
        for &o in &offs { let v = self.load_scalar(st, base + o, w)?; leaves.push(self.e(&v, w)); }
        // restrict to the feasible values when the table is a pointer table
        let e = self.itree(off, &offs, &leaves);
        Ok(self.ve(e))
    }
    fn itree(&mut self, off: E, offs: &[u64], l: &[E]) -> E {
        if l.iter().all(|x| *x == l[0]) { return l[0]; }
        let mid = l.len() / 2;
        let a = self.itree(off, &offs[..mid], &l[..mid]);
        let b = self.itree(off, &offs[mid..], &l[mid..]);
        let k = self.p.konst(64, offs[mid] as u128);
        let c = self.p.bin(Op::Ult, off, k);
        self.p.ite(c, a, b)
    }

    // ---------- arithmetic ----------
    fn big(&mut self, st: &mut State, v: Val) -> R<Val> {
        // size-bounded expressions: beyond the limit the inputs are case-split by the solver
        if let Val::S(e) = &v {
            let size = self.p.meta[*e as usize].size;
            let over = size > self.o.expr_limit;
            let mm = self.p.meta[*e as usize];
            let narrow = mm.hi - mm.lo <= 4096;
            if (over || (narrow && size > 200 && size <= 400)) && !self.subset_fixed(st, *e) {
                let w = self.p.w(*e);
                // a value that the path already determines (a length, say) needs no split
                let k = self.eval(st, *e);
                let kc = self.p.konst(w, k);
                let eq = self.p.bin(Op::Eq, *e, kc);
                let ne = self.p.not(eq);
                self.branch_decisions += 1;
                if narrow { if let Res::Unsat = self.s.check(&mut self.p, &st.pc, ne, &st.model) { return Ok(Val::of(w, k)); } }
                if !over { return Ok(v); }
                let k = self.conc_inputs(st, *e)?;
                return Ok(Val::of(w, k));
            }
        }
        Ok(v)
    }
    pub fn conc_inputs(&mut self, st: &mut State, e: E) -> R<u128> {
        let vs = self.p.vsets[self.p.vars(e) as usize];
        for i in 0..MAXVARS {
            if vs[i / 64] >> (i % 64) & 1 == 1 && st.fixed[i / 64] >> (i % 64) & 1 == 0 {
                let x = self.p.var(i as u32);
                self.conc(st, &Val::S(x), "expr-limit")?;
                st.fixed[i / 64] |= 1 << (i % 64);
            }
        }
        Ok(self.eval(st, e))
    }
    /// a condition over one input byte that the path's facts about that byte already settle
    fn settle(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(e) = &v {
            if let Some((x, t)) = self.p.truth(*e) {
                if let Some(d) = st.dom.get(x) {
                    if (0..4).all(|i| d[i] & !t[i] == 0) { return Val::I(1); }
                    if (0..4).all(|i| d[i] & t[i] == 0) { return Val::I(0); }
                }
            }
        }
        v
    }
    fn bin1(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let m = mask(w);
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y == 0 { return Err(End::Crash("division by zero".into())); }
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                _ => fold(eop(op), w, x, y).unwrap(),
            };
            return Ok(Val::of(w, r));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            let z = self.p.konst(w, 0);
            let c = self.p.bin(Op::Eq, y, z);
            if self.decide_here(st, c, "div0")? { return Err(End::Crash("division by zero".into())); }
        }
        let e = self.p.bin(eop(op), x, y);
        let v = self.ve(e);
        self.big(st, v)
    }
    pub fn icmp1(&mut self, pred: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let r = match pred {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w), Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let e = match pred {
            Pred::Eq => self.p.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.p.bin(Op::Eq, x, y); self.p.not(e) }
            Pred::Ult => self.p.bin(Op::Ult, x, y), Pred::Ule => self.p.bin(Op::Ule, x, y),
            Pred::Ugt => self.p.bin(Op::Ult, y, x), Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y), Pred::Sle => self.p.bin(Op::Sle, x, y),
            Pred::Sgt => self.p.bin(Op::Slt, y, x), Pred::Sge => self.p.bin(Op::Sle, y, x),
        };
        self.ve(e)
    }
    fn flat(&mut self, v: &Val, ew: u32) -> (E, u32) {
        // vector lanes -> one bit-vector (lane 0 lowest)
        match v {
            Val::A(xs) => {
                let mut acc: Option<E> = None;
                for x in xs.iter() { let e = self.e(x, ew); acc = Some(match acc { None => e, Some(a) => self.p.concat(e, a) }); }
                (acc.unwrap(), ew * xs.len() as u32)
            }
            v => (self.e(v, ew), ew),
        }
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: TyId, to: TyId, a: Val) -> R<Val> {
        let (fw, fl) = vecw(&self.m, from);
        let (tw, tl) = vecw(&self.m, to);
        if k == Cast::BitCast {
            if fl == 0 && tl == 0 { return Ok(a); }
            let (e, w) = self.flat(&a, fw);
            if tl == 0 { return Ok(self.ve(e)); }
            let _ = w;
            let mut out = vec![];
            for i in 0..tl { let x = self.p.extract(e, i * tw + tw - 1, i * tw); out.push(self.ve(x)); }
            return Ok(Val::A(Rc::new(out)));
        }
        if fl > 0 {
            let xs = match &a { Val::A(x) => x.clone(), _ => panic!() };
            let mut out = vec![];
            for x in xs.iter() { out.push(self.cast1(st, k, fw, tw, x)?); }
            return Ok(Val::A(Rc::new(out)));
        }
        let fty = self.m.tys[from as usize].clone();
        let tty = self.m.tys[to as usize].clone();
        match k {
            Cast::FpToUi | Cast::FpToSi | Cast::FpExt | Cast::FpTrunc | Cast::UiToFp | Cast::SiToFp => {
                let x = self.conc(st, &a, "float")?;
                let f = |bits: u128| if fty == Ty::F64 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                Ok(match k {
                    Cast::FpToUi => Val::of(tw, (f(x) as u128) & mask(tw)),
                    Cast::FpToSi => Val::of(tw, (f(x) as i128 as u128) & mask(tw)),
                    Cast::FpExt => Val::I((f32::from_bits(x as u32) as f64).to_bits()),
                    Cast::FpTrunc => Val::I((f64::from_bits(x as u64) as f32).to_bits() as u64),
                    Cast::UiToFp => if tty == Ty::F64 { Val::I((x as f64).to_bits()) } else { Val::I((x as f32).to_bits() as u64) },
                    _ => { let s = sx(x, fw); if tty == Ty::F64 { Val::I((s as f64).to_bits()) } else { Val::I((s as f32).to_bits() as u64) } }
                })
            }
            _ => self.cast1(st, k, fw, tw, &a),
        }
    }
    fn cast1(&mut self, st: &mut State, k: Cast, fw: u32, tw: u32, a: &Val) -> R<Val> {
        let _ = &st;
        if let Some(x) = a.conc() {
            let r = match k { Cast::SExt => (sx(x, fw) as u128) & mask(tw), _ => x & mask(tw) };
            return Ok(Val::of(tw, r));
        }
        let e = self.e(a, fw);
        let r = match k {
            Cast::Trunc => self.p.extract(e, tw - 1, 0),
            Cast::ZExt => self.p.zext(e, tw),
            Cast::SExt => self.p.sext(e, tw),
            Cast::PtrToInt | Cast::IntToPtr => if tw < fw { self.p.extract(e, tw - 1, 0) } else { self.p.zext(e, tw) },
            _ => panic!("cast1 {:?}", k),
        };
        Ok(self.ve(r))
    }
    fn fbin(&self, op: FOp, dbl: bool, x: u64, y: u64) -> u64 {
        if dbl {
            let (a, b) = (f64::from_bits(x), f64::from_bits(y));
            (match op { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b, FOp::Neg => -a }).to_bits()
        } else {
            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            (match op { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b, FOp::Neg => -a }).to_bits() as u64
        }
    }
    pub fn select(&mut self, st: &mut State, ty: TyId, c: &Val, a: Val, b: Val) -> R<Val> {
        match c {
            Val::I(k) => Ok(if *k & 1 == 1 { a } else { b }),
            Val::S(ce) => {
                if let Ty::St(..) | Ty::Arr(..) | Ty::Vec(..) = self.m.tys[ty as usize] {
                    return Ok(if self.decide_here(st, *ce, "select")? { a } else { b });
                }
                if matches!(self.m.tys[ty as usize], Ty::F32 | Ty::F64) { return Ok(if self.decide_here(st, *ce, "select")? { a } else { b }); }
                let w = self.m.bits(ty);
                let (x, y) = (self.e(&a, w), self.e(&b, w));
                let e = self.p.ite(*ce, x, y);
                let v = self.ve(e);
                self.big(st, v)
            }
            _ => panic!("select cond"),
        }
    }

    // ---------- control ----------
    pub fn goto(&mut self, st: &mut State, t: u32) {
        let f = st.cur.func.clone();
        let from = st.cur.blk;
        let phis = &f.blocks[t as usize].phis;
        if !phis.is_empty() {
            if phis.len() == 1 {
                let o = &phis[0].inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = self.v(st, o);
                st.cur.regs[phis[0].d as usize] = v;
            } else {
                let vals: Vec<Val> = phis.iter().map(|ph| { let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi edge").1; self.v(st, o) }).collect();
                for (ph, v) in phis.iter().zip(vals) { st.cur.regs[ph.d as usize] = v; }
            }
        }
        st.cur.prev = from;
        st.cur.blk = t;
        st.cur.ip = 0;
    }
    pub fn finish(&mut self, st: State, e: End) {
        self.paths += 1;
        self.steps += 0;
        self.witseen |= if matches!(e, End::Assume) { 0 } else { st.wit };
        let (k, msg) = match &e {
            End::Ok => ("ok", String::new()),
            End::Assume => ("assume", String::new()),
            End::Reject(m) => ("reject", m.clone()),
            End::Fail(m) => ("fail", m.clone()),
            End::Panic(m) => ("panic", m.clone()),
            End::Crash(m) => ("crash", m.clone()),
            End::Hang => ("hang", format!("more than {} IR instructions on one path", self.o.max_steps)),
            End::Inconclusive(m) => ("inconclusive", m.clone()),
        };
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
        if self.o.trace { eprintln!("path {} end {} {} steps {} model {:?}", self.paths, k, msg, st.steps, &st.model); }
        let viol = matches!(e, End::Fail(_) | End::Panic(_) | End::Crash(_) | End::Hang);
        if let End::Inconclusive(m) = &e { if self.incon.len() < 20 { self.incon.push(m.clone()); } }
        let seen = { let x = self.seen_kinds.entry(format!("{}{}", k, msg)).or_insert(0); *x += 1; *x };
        let keep_sample = !viol && !matches!(e, End::Assume | End::Inconclusive(_)) && (self.paths.is_power_of_two() || self.paths % self.o.samples.max(1) == 0 || seen <= 1) && self.recs.len() < 400;
        if viol || keep_sample {
            let mut input = st.model.clone();
            input.resize(st.nvars as usize, 0);
            self.p.new_model();
            let mut obs = vec![];
            for o in &st.obs {
                let mut b = o.d.clone();
                for i in 0..b.len() { if let Some(&s) = o.s.get(i) { if s != 0 { b[i] = self.p.eval(s, &input) as u8; } } }
                obs.push(b);
            }
            let r = PathRec { kind: k.to_string(), msg, input, obs };
            if viol { if self.viols.len() < 40 && seen <= 4 { self.viols.push(r); } if self.viols.len() >= self.o.stop_after { self.stop = true; } } else { self.recs.push(r); }
        }
    }
    pub fn timed_out(&self) -> bool { self.start.elapsed().as_secs_f64() > self.o.time }

    pub fn run(&mut self, mut st: State) {
        let steps0 = st.steps;
        let mut tick = 0u32;
        loop {
            let r = self.run_block(&mut st);
            match r {
                Ok(()) => {}
                Err(e) => { self.steps += st.steps.wrapping_sub(steps0); self.finish(st, e); return; }
            }
            tick += 1;
            if tick & 0xfff == 0 && self.timed_out() { self.work.push(st); return; }
            if st.steps > self.o.max_steps { self.steps += st.steps - steps0; self.finish(st, End::Hang); return; }
        }
    }
    /// executes until the block changes (jump, call, return) or the path ends
    fn run_block(&mut self, st: &mut State) -> R<()> {
        let f = st.cur.func.clone();
        let insts = &f.blocks[st.cur.blk as usize].insts;
        loop {
            let inst = &insts[st.cur.ip as usize];
            st.steps += 1;
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[*$d as usize] = v; }} }
            match inst {
                Inst::Nop => {}
                Inst::Bin { op, w, lanes, d, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    if *lanes == 0 {
                        if let (Val::I(p), Val::I(q)) = (&x, &y) {
                            // fast path
                            let m = if *w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                            let r = match op {
                                BinOp::Add => Some(p.wrapping_add(*q) & m),
                                BinOp::Sub => Some(p.wrapping_sub(*q) & m),
                                BinOp::And => Some(p & q),
                                BinOp::Or => Some(p | q),
                                BinOp::Xor => Some(p ^ q),
                                BinOp::Mul => Some(p.wrapping_mul(*q) & m),
                                BinOp::Shl if *q < *w as u64 => Some((p << q) & m),
                                BinOp::LShr if *q < *w as u64 => Some(p >> q),
                                _ => None,
                            };
                            if let Some(r) = r { st.cur.regs[*d as usize] = Val::I(r); st.cur.ip += 1; continue; }
                        }
                        set!(d, self.bin1(st, *op, *w, &x, &y)?);
                    } else {
                        let (xs, ys) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p.clone(), q.clone()), _ => panic!("vector bin") };
                        let mut o = vec![];
                        for i in 0..*lanes as usize { o.push(self.bin1(st, *op, *w, &xs[i], &ys[i])?); }
                        set!(d, Val::A(Rc::new(o)));
                    }
                }
                Inst::ICmp { pred, w, lanes, d, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    if *lanes == 0 { let r = self.icmp1(*pred, *w, &x, &y); let r = self.settle(st, r); set!(d, self.big(st, r)?); }
                    else {
                        let (xs, ys) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p.clone(), q.clone()), _ => panic!("vector icmp") };
                        let o: Vec<Val> = (0..*lanes as usize).map(|i| self.icmp1(*pred, *w, &xs[i], &ys[i])).collect();
                        set!(d, Val::A(Rc::new(o)));
                    }
                }
                Inst::FBin { op, dbl, d, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    let x = self.conc(st, &x, "float")?;
                    let y = self.conc(st, &y, "float")?;
                    set!(d, Val::I(self.fbin(*op, *dbl, x as u64, y as u64)));
                }
                Inst::FCmp { pred, dbl, d, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    let x = self.conc(st, &x, "float")? as u64;
                    let y = self.conc(st, &y, "float")? as u64;
                    let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let bit = if x.is_nan() || y.is_nan() { 8 } else if x == y { 1 } else if x < y { 2 } else { 4 };
                    set!(d, Val::I((pred & bit != 0) as u64));
                }
                Inst::Cast { k, from, to, d, a } => { let x = self.v(st, a); set!(d, self.cast(st, *k, *from, *to, x)?); }
                Inst::Load { d, ty, p } => {
                    let pv = self.v(st, p);
                    let v = match pv { Val::I(a) => self.load(st, a, *ty)?, Val::S(e) => self.load_sym(st, e, *ty)?, _ => panic!() };
                    set!(d, v);
                }
                Inst::Store { ty, v, p } => {
                    let pv = self.v(st, p);
                    let a = self.conc(st, &pv, "store-addr")? as u64;
                    let x = self.v(st, v);
                    self.store(st, a, *ty, &x)?;
                }
                Inst::Gep { d, base, off, idx } => {
                    let b = self.v(st, base);
                    let mut acc = match &b { Val::I(x) => Val::I(x.wrapping_add(*off as u64)), v => { let x = self.e(v, 64); let k = self.p.konst(64, *off as u64 as u128); let r = self.p.bin(Op::Add, x, k); self.ve(r) } };
                    for (o, w, sc) in idx {
                        let i = self.v(st, o);
                        if let (Val::I(x), Val::I(k)) = (&acc, &i) {
                            let k = sx(*k as u128, *w) as i64;
                            acc = Val::I(x.wrapping_add(k.wrapping_mul(*sc) as u64));
                        } else {
                            let ie = self.e(&i, *w);
                            let ie = if *w < 64 { self.p.sext(ie, 64) } else { ie };
                            let s = self.p.konst(64, *sc as u64 as u128);
                            let t = self.p.bin(Op::Mul, ie, s);
                            let x = self.e(&acc, 64);
                            let r = self.p.bin(Op::Add, x, t);
                            acc = self.ve(r);
                        }
                    }
                    set!(d, acc);
                }
                Inst::Select { d, ty, vecc, c, a, b } => {
                    let (cv, x, y) = (self.v(st, c), self.v(st, a), self.v(st, b));
                    if *vecc > 0 {
                        let (cs, xs, ys) = match (&cv, &x, &y) { (Val::A(c), Val::A(p), Val::A(q)) => (c.clone(), p.clone(), q.clone()), _ => panic!() };
                        let et = self.m.field_off(*ty, 0).1;
                        let mut o = vec![];
                        for i in 0..*vecc as usize { o.push(self.select(st, et, &cs[i], xs[i].clone(), ys[i].clone())?); }
                        set!(d, Val::A(Rc::new(o)));
                    } else { let cv = self.settle(st, cv); set!(d, self.select(st, *ty, &cv, x, y)?); }
                }
                Inst::Alloca { d, size } => { let a = st.mem.alloc(*size, false); st.cur.allocas.push(a); set!(d, Val::I(a)); }
                Inst::Extract { d, a, path } => {
                    let mut v = self.v(st, a);
                    for &i in path { v = match v { Val::A(x) => x[i as usize].clone(), _ => panic!("extractvalue") }; }
                    set!(d, v);
                }
                Inst::Insert { d, ty: _, a, v, path } => {
                    let mut agg = self.v(st, a);
                    let x = self.v(st, v);
                    {
                        let mut p = &mut agg;
                        for &i in path { p = match p { Val::A(r) => &mut Rc::make_mut(r)[i as usize], _ => panic!("insertvalue") }; }
                        *p = x;
                    }
                    set!(d, agg);
                }
                Inst::ExtElem { d, a, i } => {
                    let iv = self.v(st, i);
                    let k = self.conc(st, &iv, "lane")? as usize;
                    let v = match self.v(st, a) { Val::A(x) => x[k].clone(), _ => panic!() };
                    set!(d, v);
                }
                Inst::InsElem { d, lanes: _, a, v, i } => {
                    let iv = self.v(st, i);
                    let k = self.conc(st, &iv, "lane")? as usize;
                    let mut agg = self.v(st, a);
                    let x = self.v(st, v);
                    match &mut agg { Val::A(r) => Rc::make_mut(r)[k] = x, _ => panic!() }
                    set!(d, agg);
                }
                Inst::Shuffle { d, a, b, lanes, mask } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    let (xs, ys) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p.clone(), q.clone()), _ => panic!("shuffle") };
                    let o: Vec<Val> = mask.iter().map(|&k| { let k = (k & 0xffff_ffff) as u32; if k < *lanes { xs[k as usize].clone() } else if k < 2 * lanes { ys[(k - lanes) as usize].clone() } else { Val::I(0) } }).collect();
                    set!(d, Val::A(Rc::new(o)));
                }
                Inst::Copy { d, a } => { let v = self.v(st, a); set!(d, v); }
                Inst::CmpXchg { d, ty, p, c, n } => {
                    let pv = self.v(st, p);
                    let a = self.conc(st, &pv, "addr")? as u64;
                    let old = self.load(st, a, *ty)?;
                    let (cv, nv) = (self.v(st, c), self.v(st, n));
                    let (oc, cc) = (self.conc(st, &old, "cmpxchg")?, self.conc(st, &cv, "cmpxchg")?);
                    let ok = oc == cc;
                    if ok { self.store(st, a, *ty, &nv)?; }
                    set!(d, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
                }
                Inst::Rmw { d, op, ty, p, v } => {
                    let pv = self.v(st, p);
                    let a = self.conc(st, &pv, "addr")? as u64;
                    let old = self.load(st, a, *ty)?;
                    let x = self.v(st, v);
                    let w = self.m.bits(*ty);
                    let nv = match op {
                        Rmw::Xchg => x,
                        Rmw::Add => self.bin1(st, BinOp::Add, w, &old, &x)?,
                        Rmw::Sub => self.bin1(st, BinOp::Sub, w, &old, &x)?,
                        Rmw::And => self.bin1(st, BinOp::And, w, &old, &x)?,
                        Rmw::Or => self.bin1(st, BinOp::Or, w, &old, &x)?,
                        Rmw::Xor => self.bin1(st, BinOp::Xor, w, &old, &x)?,
                        Rmw::Umax => { let (o, n) = (self.conc(st, &old, "rmw")?, self.conc(st, &x, "rmw")?); Val::of(w, o.max(n)) }
                        Rmw::Umin => { let (o, n) = (self.conc(st, &old, "rmw")?, self.conc(st, &x, "rmw")?); Val::of(w, o.min(n)) }
                    };
                    self.store(st, a, *ty, &nv)?;
                    set!(d, old);
                }
                Inst::Call { d, callee, args, rty, aw } => {
                    let fi = match callee {
                        Callee::F(f) => *f,
                        Callee::Ext(x) => {
                            let mut av: Vec<Val> = Vec::with_capacity(args.len());
                            for a in args { av.push(self.v(st, a)); }
                            let r = self.external(st, *x, av, *rty, *aw)?;
                            if let Some(d) = d { st.cur.regs[*d as usize] = r; }
                            st.cur.ip += 1;
                            continue;
                        }
                        Callee::Ind(o) => {
                            let pv = self.v(st, o);
                            let a = self.conc(st, &pv, "fnptr")? as u64;
                            let id = a >> SLOT;
                            if id >= FUNC_BASE + (1 << 20) {
                                let x = (id - FUNC_BASE - (1 << 20)) as u32;
                                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                                for a in args { av.push(self.v(st, a)); }
                                let r = self.external(st, x, av, *rty, *aw)?;
                                if let Some(d) = d { st.cur.regs[*d as usize] = r; }
                                st.cur.ip += 1;
                                continue;
                            }
                            if id < FUNC_BASE { return Err(self.fault(st, "call", a, 0)); }
                            (id - FUNC_BASE) as u32
                        }
                    };
                    match self.fk[fi as usize] {
                        FK::Panic => {
                            // last pointer argument is &Location
                            let mut loc = String::from("?");
                            if let Some(l) = args.last() { if let Val::I(a) = self.v(st, l) { loc = self.location(st, a).unwrap_or(loc); } }
                            return Err(if st.panic_ok { End::Reject(format!("panic at {}", loc)) } else { End::Panic(loc) });
                        }
                        FK::Abort => return Err(End::Crash(format!("abort in {}", crate::demangle(&self.m.funcs[fi as usize].name)))),
                        _ => {}
                    }
                    if st.stack.len() > 4000 { return Err(End::Crash("stack overflow (call depth > 4000)".into())); }
                    let body = self.m.body(fi);
                    if self.funcs.insert(fi) {}
                    let mut regs = vec![Val::I(0); body.nregs as usize];
                    for (i, a) in args.iter().enumerate() { if i < body.params as usize { regs[i] = self.v(st, a); } }
                    if self.o.profile { *self.prof.entry(fi).or_insert(0) += 1; }
                    st.cur.ip += 1;
                    let nf = Frame { fi, func: body, blk: 0, ip: 0, prev: 0, regs, allocas: vec![], ret: *d };
                    let old = std::mem::replace(&mut st.cur, nf);
                    st.stack.push(Rc::new(old));
                    return Ok(());
                }
                Inst::Br(t) => { self.goto(st, *t); return Ok(()); }
                Inst::CondBr { c, t, f: fl } => {
                    let cv = self.v(st, c);
                    let b = match cv {
                        Val::I(k) => k & 1 == 1,
                        Val::S(e) => {
                            let (t, fl) = (*t, *fl);
                            self.decide(st, e, "branch", &mut |en, s, side| en.goto(s, if side { t } else { fl }))?
                        }
                        _ => panic!(),
                    };
                    self.goto(st, if b { *t } else { *fl });
                    return Ok(());
                }
                Inst::Switch { w, v, def, cases } => {
                    let x = self.v(st, v);
                    match x.conc() {
                        Some(k) => {
                            let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            self.goto(st, t);
                        }
                        None => {
                            let e = self.e(&x, *w);
                            let k = self.eval(st, e);
                            let mine = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            if self.subset_fixed(st, e) { self.goto(st, mine); return Ok(()); }
                            // one condition per distinct target
                            let mut conds: BTreeMap<u32, E> = BTreeMap::new();
                            let mut any = self.p.konst(1, 0);
                            let mut seen = HashSet::new();
                            for (ck, t) in cases {
                                if !seen.insert(*ck) { continue; }
                                let kk = self.p.konst(*w, *ck);
                                let eq = self.p.bin(Op::Eq, e, kk);
                                any = self.p.bin(Op::Or, any, eq);
                                if t == def { continue; }
                                let o = conds.get(t).copied();
                                let n = match o { None => eq, Some(o) => self.p.bin(Op::Or, o, eq) };
                                conds.insert(*t, n);
                            }
                            // default: none of the cases that go elsewhere
                            let mut none = self.p.konst(1, 1);
                            for (_, c) in &conds { let n = self.p.not(*c); none = self.p.bin(Op::And, none, n); }
                            conds.insert(*def, none);
                            self.branch_decisions += 1;
                            let targets: Vec<(u32, E)> = conds.into_iter().collect();
                            let mut minec = None;
                            let mut forked = false;
                            for (t, c) in targets {
                                if t == mine { minec = Some(c); continue; }
                                match self.s.check(&mut self.p, &st.pc, c, &st.model) {
                                    Res::Unsat => {}
                                    Res::Unknown => return Err(End::Inconclusive("solver returned unknown".into())),
                                    Res::Sat(m2) => {
                                        let mut sib = st.clone();
                                        sib.model = m2;
                                        self.add_pc(&mut sib, c);
                                        self.note_fork(st, &mut sib, "switch");
                                        self.goto(&mut sib, t);
                                        self.work.push(sib);
                                        forked = true;
                                    }
                                }
                            }
                            if forked { self.add_pc(st, minec.unwrap()); }
                            self.goto(st, mine);
                        }
                    }
                    return Ok(());
                }
                Inst::Ret(o) => {
                    let v = o.as_ref().map(|o| self.v(st, o));
                    for a in std::mem::take(&mut st.cur.allocas) { st.mem.free(a); }
                    match st.stack.pop() {
                        None => return Err(End::Ok),
                        Some(fr) => {
                            let ret = st.cur.ret;
                            st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            if let (Some(d), Some(v)) = (ret, v) { st.cur.regs[d as usize] = v; }
                            return Ok(());
                        }
                    }
                }
                Inst::Unreachable => return Err(End::Crash(format!("unreachable reached in {}", crate::demangle(&self.m.funcs[st.cur.fi as usize].name)))),
            }
            st.cur.ip += 1;
        }
    }
    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        let fp = self.load_scalar(st, a, 64).ok()?.conc()? as u64;
        let n = self.load_scalar(st, a + 8, 64).ok()?.conc()? as u64;
        let line = self.load_scalar(st, a + 16, 32).ok()?.conc()?;
        if n > 400 { return None; }
        let b = st.mem.bytes(fp, n)?.0;
        let s = String::from_utf8(b).ok()?;
        Some(format!("{}:{}", s.trim_end_matches('\0'), line))
    }
}

fn eop(o: BinOp) -> Op {
    match o { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor }
}
