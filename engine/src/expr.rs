//! Hash-consed bit-vector expressions over symbolic input bytes, with a simplifier,
//! a concrete evaluator (used for path models) and cheap unsigned-interval analysis.
use std::collections::HashMap;

pub type E = u32;
pub const MAXVARS: usize = 512;
pub type VarSet = [u64; MAXVARS / 64];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    /// operands; Const: k; Var: a = index; Extract: b = lo
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Meta { pub vs: u32, pub lo: u128, pub hi: u128, pub size: u32 }

pub struct Pool {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<Node, E, BuildFx>,
    pub vsets: Vec<VarSet>,
    vsmap: HashMap<VarSet, u32>,
    memo: Vec<(u32, u128)>,
    truths: HashMap<E, (usize, [u64; 4]), BuildFx>,
    stamp: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => { if y == 0 { m } else { x / y } }
        Op::URem => { if y == 0 { x } else { x % y } }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= w as u128 { w - 1 } else { y as u32 }; ((sx(x, w) >> s) as u128) & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
        _ => return None,
    })
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![], meta: vec![], map: HashMap::default(), vsets: vec![[0; MAXVARS / 64]],
            vsmap: HashMap::new(), memo: vec![], truths: HashMap::default(), stamp: 0,
        };
        p.vsmap.insert([0; MAXVARS / 64], 0);
        // id 0 is reserved ("concrete byte" marker in memory)
        p.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        p.meta.push(Meta { vs: 0, lo: 0, hi: 0, size: 1 });
        p.memo.push((0, 0));
        p
    }
    fn vs_intern(&mut self, s: VarSet) -> u32 {
        if let Some(&i) = self.vsmap.get(&s) { return i; }
        let i = self.vsets.len() as u32;
        self.vsets.push(s);
        self.vsmap.insert(s, i);
        i
    }
    fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let mut s = self.vsets[a as usize];
        let t = self.vsets[b as usize];
        for i in 0..s.len() { s[i] |= t[i]; }
        self.vs_intern(s)
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let m = mask(n.w);
        let (mut vs, mut size) = (0u32, 1u32);
        let kids: &[E] = match n.op {
            Op::Const | Op::Var => &[],
            Op::Extract | Op::ZExt | Op::SExt => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        for &k in kids {
            let mm = self.meta[k as usize];
            vs = self.vs_union(vs, mm.vs);
            size = size.saturating_add(mm.size);
        }
        if n.op == Op::Var {
            let mut s = [0u64; MAXVARS / 64];
            let i = n.a as usize;
            assert!(i < MAXVARS, "too many symbolic bytes");
            s[i / 64] |= 1 << (i % 64);
            vs = self.vs_intern(s);
        }
        // interval
        let r = |p: &Pool, e: E| (p.meta[e as usize].lo, p.meta[e as usize].hi);
        let (lo, hi) = match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => (0, 255),
            Op::ZExt => r(self, n.a),
            Op::Add => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => (0, m) }
            }
            Op::Sub => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) }
            }
            Op::Mul => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) }
            }
            Op::And => { let (a, b) = (r(self, n.a), r(self, n.b)); (0, a.1.min(b.1)) }
            Op::Or | Op::Xor => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                let top = a.1.max(b.1);
                let bits = 128 - top.leading_zeros();
                (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, mask(bits) & m)
            }
            Op::LShr => {
                let a = r(self, n.a);
                let nb = self.nodes[n.b as usize];
                if nb.op == Op::Const { if nb.k >= n.w as u128 { (0, 0) } else { (a.0 >> nb.k, a.1 >> nb.k) } } else { (0, a.1) }
            }
            Op::Shl => {
                let a = r(self, n.a);
                let nb = self.nodes[n.b as usize];
                if nb.op == Op::Const && nb.k < n.w as u128 && a.1 <= (m >> nb.k) { (a.0 << nb.k, a.1 << nb.k) } else { (0, m) }
            }
            Op::UDiv => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) }
            }
            Op::URem => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { (0, m) }
            }
            Op::Ite => { let (a, b) = (r(self, n.b), r(self, n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Concat => {
                let (a, b) = (r(self, n.a), r(self, n.b));
                let wb = self.nodes[n.b as usize].w;
                ((a.0 << wb) + b.0, (a.1 << wb) + b.1)
            }
            Op::Extract => {
                let a = r(self, n.a);
                if n.b == 0 && a.1 <= m { a } else { (0, m) }
            }
            _ => (0, m),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.meta.push(Meta { vs, lo, hi, size });
        self.memo.push((0, 0));
        self.map.insert(n, e);
        if lo == hi && n.op != Op::Const { return self.konst(n.w, lo); }
        e
    }
    pub fn node(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn vars(&self, e: E) -> u32 { self.meta[e as usize].vs }
    pub fn konst(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> E { self.mk(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, k: 0 }) }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn raw2(&mut self, op: Op, w: u32, a: E, b: E) -> E { self.mk(Node { op, w, a, b, c: 0, k: 0 }) }

    pub fn not(&mut self, e: E) -> E { let o = self.konst(1, 1); self.bin(Op::Xor, e, o) }

    /// binary operator; both operands have the same width (shifts too)
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return { let k = fold(op, w, x, y).unwrap(); self.konst(rw, k) };
        }
        let m = mask(w);
        // commutative: constant on the right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.is_const(a).is_some() || (self.is_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let kb = self.is_const(b);
        let na = self.node(a);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Op::Add { if let Some(k2) = self.is_const(na.b) { let c = self.konst(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, c); } }
                    // zext(x)+k when no overflow in zext kept as is
                    if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let t = self.bin(op, na.b, b); let f = self.bin(op, na.c, b); return self.ite(na.a, t, f);
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) { return a; }
                if a == b { return self.konst(w, 0); }
                if let Some(k) = kb { let c = self.konst(w, (!k).wrapping_add(1)); return self.bin(Op::Add, a, c); }
                // (x + k) - x => k
                if na.op == Op::Add && na.a == b { return na.b; }
                if na.op == Op::Add && na.b == b { return na.a; }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.konst(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, c); } }
            }
            Op::And => {
                if kb == Some(0) { return b; }
                if kb == Some(m) || a == b { return a; }
                if let Some(k) = kb {
                    if na.op == Op::And { if let Some(k2) = self.is_const(na.b) { let c = self.konst(w, k & k2); return self.bin(Op::And, na.a, c); } }
                    // mask of low bits
                    if (k & (k.wrapping_add(1))) == 0 {
                        let bits = 128 - k.leading_zeros();
                        if self.meta[a as usize].hi <= k { return a; }
                        let x = self.extract(a, bits - 1, 0);
                        return self.zext(x, w);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) { let c = self.konst(iw, k); let x = self.bin(Op::And, na.a, c); return self.zext(x, w); }
                        let c = self.konst(w, k & mask(iw)); if k & mask(iw) != k { return self.bin(Op::And, a, c); }
                    }
                }
            }
            Op::Or => {
                if kb == Some(0) || a == b { return a; }
                if kb == Some(m) { return b; }
                // zext(x)<<k | zext(y) => concat
                if let Some(e) = self.or_concat(a, b, w) { return e; }
            }
            Op::Xor => {
                if kb == Some(0) { return a; }
                if a == b { return self.konst(w, 0); }
                if let Some(k) = kb {
                    if na.op == Op::Xor { if let Some(k2) = self.is_const(na.b) { let c = self.konst(w, k ^ k2); return self.bin(Op::Xor, na.a, c); } }
                    if w == 1 && k == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= w as u128 { if op != Op::AShr { return self.konst(w, 0); } }
                    else {
                        let k = k as u32;
                        match op {
                            Op::LShr => { let x = self.extract(a, w - 1, k); return self.zext(x, w); }
                            Op::Shl => { let x = self.extract(a, w - 1 - k, 0); let z = self.konst(k, 0); return self.concat(x, z); }
                            _ => {}
                        }
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.konst(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, c); } }
            }
            Op::URem => {
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.konst(w, k - 1); return self.bin(Op::And, a, c); } }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
                if ma.hi < mb.lo || mb.hi < ma.lo { return self.konst(1, 0); }
                if let Some(k) = kb {
                    if w == 1 { return if k == 1 { a } else { let o = self.konst(1, 1); self.bin(Op::Xor, a, o) }; }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.konst(1, 0); }
                            let c = self.konst(iw, k); return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let kk = k & mask(iw);
                            if (sx(kk, iw) as u128) & m != k { return self.konst(1, 0); }
                            let c = self.konst(iw, kk); return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => if let Some(k2) = self.is_const(na.b) { let c = self.konst(w, k.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, c); },
                        Op::Xor => if let Some(k2) = self.is_const(na.b) { let c = self.konst(w, k ^ k2); return self.bin(Op::Eq, na.a, c); },
                        Op::Concat => {
                            let wb = self.w(na.b);
                            let (ch, cl) = (self.konst(w - wb, k >> wb), self.konst(wb, k));
                            let (x, y) = (self.bin(Op::Eq, na.a, ch), self.bin(Op::Eq, na.b, cl));
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (kx, ky) = (self.is_const(na.b), self.is_const(na.c));
                            if kx.is_some() || ky.is_some() {
                                let x = self.bin(Op::Eq, na.b, b); let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.node(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.konst(1, (op == Op::Ule) as u128); }
                let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
                if op == Op::Ult { if ma.hi < mb.lo { return self.konst(1, 1); } if ma.lo >= mb.hi { return self.konst(1, 0); } }
                else { if ma.hi <= mb.lo { return self.konst(1, 1); } if ma.lo > mb.hi { return self.konst(1, 0); } }
                let nb = self.node(b);
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if nb.op == Op::ZExt && self.w(nb.a) == iw { return self.bin(op, na.a, nb.a); }
                    if let Some(k) = kb { if k <= mask(iw) { let c = self.konst(iw, k); return self.bin(op, na.a, c); } }
                }
                if nb.op == Op::ZExt { if let Some(k) = self.is_const(a) { let iw = self.w(nb.a); if k <= mask(iw) { let c = self.konst(iw, k); return self.bin(op, c, nb.a); } } }
                if op == Op::Ult && kb == Some(1) { let z = self.konst(w, 0); return self.bin(Op::Eq, a, z); }
                if op == Op::Ule && kb == Some(0) { return self.bin(Op::Eq, a, b); }
                if na.op == Op::Ite && kb.is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                    let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst(1, (op == Op::Sle) as u128); }
                // both known non-negative
                let half = m >> 1;
                if self.meta[a as usize].hi <= half && self.meta[b as usize].hi <= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.op == Op::Ite && kb.is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                    let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y);
                }
            }
            _ => {}
        }
        self.raw2(op, rw, a, b)
    }
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // disjoint: a = Concat(hi, 0[k]) and b < 2^k
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.node(x);
            if nx.op == Op::Concat {
                if let Some(0) = self.is_const(nx.b) {
                    let k = self.w(nx.b);
                    if self.meta[y as usize].hi <= mask(k) {
                        let l = self.extract(y, k - 1, 0);
                        return Some(self.concat(nx.a, l));
                    }
                }
            }
            if nx.op == Op::ZExt {
                let nn = self.node(nx.a);
                if nn.op == Op::Concat {
                    if let Some(0) = self.is_const(nn.b) {
                        let k = self.w(nn.b);
                        if self.meta[y as usize].hi <= mask(k) {
                            let l = self.extract(y, k - 1, 0);
                            let c = self.concat(nn.a, l);
                            return Some(self.zext(c, w));
                        }
                    }
                }
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        if n.w == w { return a; }
        assert!(w > n.w);
        if n.op == Op::Const { return self.konst(w, n.k); }
        if n.op == Op::ZExt { return self.mk(Node { op: Op::ZExt, w, a: n.a, b: 0, c: 0, k: 0 }); }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.node(a);
        if n.w == w { return a; }
        if n.op == Op::Const { return self.konst(w, sx(n.k, n.w) as u128); }
        if self.meta[a as usize].hi <= mask(n.w) >> 1 { return self.zext(a, w); }
        if n.op == Op::ZExt { return self.zext(a, w); }
        if n.w == 1 { let x = self.konst(w, u128::MAX); let y = self.konst(w, 0); return self.ite(a, x, y); }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.node(a);
        let w = hi - lo + 1;
        if w == n.w { return a; }
        debug_assert!(hi < n.w);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.b + hi, n.b + lo),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(w, 0); }
                if hi < iw { return self.extract(n.a, hi, lo); }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw { return self.extract(n.a, hi, lo); }
                if lo < iw { let x = self.extract(n.a, iw - 1, lo); return self.sext(x, w); }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if hi < wb { return self.extract(n.b, hi, lo); }
                if lo >= wb { return self.extract(n.a, hi - wb, lo - wb); }
                let x = self.extract(n.a, hi - wb, 0);
                let y = self.extract(n.b, wb - 1, lo);
                return self.concat(x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if lo > 0 && self.meta[a as usize].hi >> lo == 0 { return self.konst(w, 0); }
        self.mk(Node { op: Op::Extract, w, a, b: lo, c: 0, k: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.node(hi), self.node(lo));
        let w = nh.w + nl.w;
        assert!(w <= 128);
        if nh.op == Op::Const && nl.op == Op::Const { return self.konst(w, (nh.k << nl.w) | nl.k); }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(lo, w); }
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w {
            return self.extract(nh.a, nh.b + nh.w - 1, nl.b);
        }
        if nh.op == Op::Extract && nh.a == lo && nh.b == nl.w { return self.extract(lo, nh.b + nh.w - 1, 0); }
        // concat(ext_hi(x, l..), x_low) where low is not an extract node (was simplified): zext case
        if nl.op == Op::Concat {
            // re-associate to the left: concat(concat(hi, l1), l2)
            let x = self.concat(hi, nl.a);
            return self.concat(x, nl.b);
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let nb = self.node(nh.b);
            if nb.op == Op::Extract && nb.a == nl.a && nb.b == nl.b + nl.w {
                let x = self.extract(nl.a, nb.b + nb.w - 1, nl.b);
                return self.concat(nh.a, x);
            }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b); let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == Op::Ite && nl.op == Op::Const { let x = self.concat(nh.b, lo); let y = self.concat(nh.c, lo); return self.ite(nh.a, x, y); }
        self.raw2(Op::Concat, w, hi, lo)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let nc = self.node(c);
        if nc.op == Op::Xor && nc.w == 1 && self.is_const(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    /// evaluate under a byte assignment. `new_model` must be true when `m` may differ from the last call.
    pub fn new_model(&mut self) { self.stamp = self.stamp.wrapping_add(1); if self.stamp == 0 { for x in self.memo.iter_mut() { x.0 = 0; } self.stamp = 1; } }
    /// for a condition over exactly one input byte: that byte and the values for which it holds
    pub fn truth(&mut self, e: E) -> Option<(usize, [u64; 4])> {
        let mm = self.meta[e as usize];
        if self.nodes[e as usize].w != 1 || mm.size > 400 { return None; }
        if let Some(x) = self.truths.get(&e) { return Some(*x); }
        let vs = &self.vsets[mm.vs as usize];
        if vs.iter().map(|x| x.count_ones()).sum::<u32>() != 1 { return None; }
        let i = vs.iter().position(|x| *x != 0).unwrap();
        let v = i * 64 + vs[i].trailing_zeros() as usize;
        let mut m = vec![0u8; v + 1];
        let mut t = [0u64; 4];
        for k in 0..256usize {
            m[v] = k as u8;
            self.new_model();
            if self.eval(e, &m) == 1 { t[k / 64] |= 1 << (k % 64); }
        }
        self.truths.insert(e, (v, t));
        Some((v, t))
    }
    pub fn eval(&mut self, root: E, m: &[u8]) -> u128 {
        let mut stack = vec![root];
        let st = self.stamp;
        while let Some(&e) = stack.last() {
            if self.memo[e as usize].0 == st { stack.pop(); continue; }
            let n = self.nodes[e as usize];
            let kids: [E; 3] = match n.op {
                Op::Const | Op::Var => [0, 0, 0],
                Op::Extract | Op::ZExt | Op::SExt => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let mut ready = true;
            for k in kids { if k != 0 && self.memo[k as usize].0 != st { stack.push(k); ready = false; } }
            if !ready { continue; }
            let g = |p: &Pool, e: E| p.memo[e as usize].1;
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => *m.get(n.a as usize).unwrap_or(&0) as u128,
                Op::Extract => (g(self, n.a) >> n.b) & mask(n.w),
                Op::ZExt => g(self, n.a),
                Op::SExt => (sx(g(self, n.a), self.w(n.a)) as u128) & mask(n.w),
                Op::Concat => (g(self, n.a) << self.w(n.b)) | g(self, n.b),
                Op::Ite => if g(self, n.a) == 1 { g(self, n.b) } else { g(self, n.c) },
                _ => fold(n.op, self.w(n.a), g(self, n.a), g(self, n.b)).unwrap(),
            };
            self.memo[e as usize] = (st, v);
            stack.pop();
        }
        self.memo[root as usize].1
    }
}
