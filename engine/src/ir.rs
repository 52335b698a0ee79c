//! Parser for the textual LLVM IR that rustc emits (post-LTO, whole program).
use std::collections::HashMap;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, TyId), St(Vec<TyId>, bool), Vec(u32, TyId), Other }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> { W(&'a str), L(String), G(String), S(Vec<u8>), P(u8) }

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let (name, j) = if b.get(i + 1) == Some(&b'"') {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    (s[i + 2..j].to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isw(b[j]) { j += 1; }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
                i = j;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                let mut v = vec![];
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' { v.push(b'\\'); j += 2; continue; }
                        v.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                        j += 3;
                    } else { v.push(b[j]); j += 1; }
                }
                out.push(Tok::S(v));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                out.push(Tok::S(s[i + 1..j].as_bytes().to_vec()));
                i = j + 1;
            }
            b'!' | b'#' => {
                let mut j = i + 1;
                while j < b.len() && (isw(b[j])) { j += 1; }
                if j == i + 1 { out.push(Tok::P(c)); i += 1; } else { out.push(Tok::W(&s[i..j])); i = j; }
            }
            _ if isw(c) => {
                let mut j = i;
                while j < b.len() && isw(b[j]) { j += 1; }
                out.push(Tok::W(&s[i..j]));
                i = j;
            }
            _ => { out.push(Tok::P(c)); i += 1; }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Val { I(u64), W(Box<u128>), S(u32), A(std::rc::Rc<Vec<Val>>) }
impl Val {
    #[inline] pub fn of(w: u32, v: u128) -> Val { if w <= 64 { Val::I(v as u64) } else { Val::W(Box::new(v)) } }
    #[inline] pub fn conc(&self) -> Option<u128> { match self { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, BitCast, PtrToInt, IntToPtr, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Umax, Umin }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ext(u32), Ind(Opd) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: FOp, dbl: bool, d: u32, a: Opd, b: Opd },
    FCmp { pred: u8, dbl: bool, d: u32, a: Opd, b: Opd },
    ICmp { pred: Pred, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: TyId, to: TyId, d: u32, a: Opd },
    Load { d: u32, ty: TyId, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Select { d: u32, ty: TyId, vecc: u32, c: Opd, a: Opd, b: Opd },
    Alloca { d: u32, size: u64 },
    Call { d: Option<u32>, callee: Callee, args: Vec<Opd>, rty: TyId, aw: u32 },
    Extract { d: u32, a: Opd, path: Vec<u32> },
    Insert { d: u32, ty: TyId, a: Opd, v: Opd, path: Vec<u32> },
    ExtElem { d: u32, a: Opd, i: Opd },
    InsElem { d: u32, lanes: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, lanes: u32, mask: Vec<i64> },
    Copy { d: u32, a: Opd },
    CmpXchg { d: u32, ty: TyId, p: Opd, c: Opd, n: Opd },
    Rmw { d: u32, op: Rmw, ty: TyId, p: Opd, v: Opd },
    Nop,
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
}

pub struct Phi { pub d: u32, pub inc: Vec<(u32, Opd)> }
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }
pub struct Func { pub nregs: u32, pub params: u32, pub blocks: Vec<Block> }

pub struct FuncDecl { pub name: String, pub start: usize, pub end: usize, pub body: Option<std::rc::Rc<Func>> }
pub struct GlobalDecl { pub name: String, pub addr: u64, pub size: u64, pub ro: bool, pub init: Vec<u8> }

pub const SLOT: u32 = 24;
pub const FUNC_BASE: u64 = 1 << 22; // object-id base of function addresses

pub struct Module {
    pub text: String,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub eidx: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gaddr: HashMap<String, u64>,
    pub alias: HashMap<String, String>,
    pub next_obj: u64,
}

pub struct Cur<'a> { pub t: Vec<Tok<'a>>, pub i: usize }
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> Tok<'a> { let t = self.t[self.i].clone(); self.i += 1; t }
    fn eat(&mut self, p: u8) -> bool { if self.peek() == Some(&Tok::P(p)) { self.i += 1; true } else { false } }
    fn expect(&mut self, p: u8) { if !self.eat(p) { panic!("expected {:?} at {} in {:?}", p as char, self.i, self.t) } }
    fn word(&self) -> Option<&'a str> { match self.peek() { Some(Tok::W(w)) => Some(w), _ => None } }
    fn eatw(&mut self, s: &str) -> bool { if self.word() == Some(s) { self.i += 1; true } else { false } }
    fn skip_parens(&mut self) {
        // positioned at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return; } }
                _ => {}
            }
        }
    }
}

const CONSTW: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr",
    "inttoptr", "ptrtoint", "bitcast", "trunc", "add", "sub", "mul", "xor", "shl", "addrspacecast"];

fn is_num(w: &str) -> bool { let b = w.as_bytes(); b[0].is_ascii_digit() || (b[0] == b'-' && b.len() > 1) || w.starts_with("0x") }

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.tys[t as usize] {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { 16 };
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => { let (s, a) = self.size_align(*e); (n * s, a) }
            Ty::Vec(n, e) => { let s = self.size_align(*e).0; let t = *n as u64 * s; (t, t.next_power_of_two()) }
            Ty::St(f, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for &x in f {
                    let (s, a) = self.size_align(x);
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::St(f, packed) => {
                let mut o = 0u64;
                for (j, &x) in f.iter().enumerate() {
                    let (s, a) = self.size_align(x);
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if j == i { return (o, x); }
                    o += s;
                }
                panic!("field_off")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size_align(*e).0 * i as u64, *e),
            t => panic!("field_off {:?}", t),
        }
    }
    pub fn nfields(&self, t: TyId) -> usize {
        match &self.tys[t as usize] { Ty::St(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, x => panic!("bits {:?}", x) }
    }
    fn is_ty_start(c: &Cur) -> bool {
        match c.peek() {
            Some(Tok::W(w)) => matches!(*w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())),
            Some(Tok::P(b'[')) | Some(Tok::P(b'{')) | Some(Tok::P(b'<')) => true,
            Some(Tok::L(_)) => true,
            _ => false,
        }
    }
    pub fn parse_ty(&mut self, c: &mut Cur) -> TyId {
        match c.next() {
            Tok::W("void") => self.ty(Ty::Void),
            Tok::W("ptr") => { if c.eatw("addrspace") { c.skip_parens(); } self.ty(Ty::Ptr) }
            Tok::W("float") => self.ty(Ty::F32),
            Tok::W("double") => self.ty(Ty::F64),
            Tok::W(w) if w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) => { let n = w[1..].parse().unwrap(); self.ty(Ty::Int(n)) }
            Tok::W(_) => self.ty(Ty::Other),
            Tok::P(b'[') => {
                let n = match c.next() { Tok::W(w) => w.parse().unwrap(), t => panic!("arr {:?}", t) };
                assert!(c.eatw("x"));
                let e = self.parse_ty(c);
                c.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            Tok::P(b'{') => { let f = self.parse_tylist(c, b'}'); self.ty(Ty::St(f, false)) }
            Tok::P(b'<') => {
                if c.eat(b'{') {
                    let f = self.parse_tylist(c, b'}');
                    c.expect(b'>');
                    self.ty(Ty::St(f, true))
                } else {
                    let n = match c.next() { Tok::W(w) => w.parse().unwrap(), t => panic!("vec {:?}", t) };
                    assert!(c.eatw("x"));
                    let e = self.parse_ty(c);
                    c.expect(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            Tok::L(n) => *self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type {:?} in {:?}", t, c.t),
        }
    }
    fn parse_tylist(&mut self, c: &mut Cur, end: u8) -> Vec<TyId> {
        let mut f = vec![];
        if c.eat(end) { return f; }
        loop {
            f.push(self.parse_ty(c));
            if c.eat(end) { return f; }
            c.expect(b',');
        }
    }
    fn skip_attrs(&self, c: &mut Cur) {
        loop {
            match c.word() {
                Some("align") => { c.i += 1; if c.peek() == Some(&Tok::P(b'(')) { c.skip_parens(); } else { c.i += 1; } }
                Some(w) if !CONSTW.contains(&w) && !is_num(w) && !w.starts_with('!') && !w.starts_with('#') && w != "to" && w != "unwind" && w != "asm" => {
                    // a type word terminates too
                    if Self::is_ty_start(c) { return; }
                    c.i += 1;
                    if c.peek() == Some(&Tok::P(b'(')) { c.skip_parens(); }
                }
                _ => match c.peek() {
                    Some(Tok::S(_)) => { c.i += 1; if c.eat(b'=') { c.i += 1; } }
                    _ => return,
                },
            }
        }
    }

    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), tys: vec![], tymap: HashMap::new(), named: HashMap::new(), funcs: vec![], fidx: HashMap::new(),
            exts: vec![], eidx: HashMap::new(), globals: vec![], gaddr: HashMap::new(), alias: HashMap::new(), next_obj: 16 };
        // pass 1: lines
        let mut pos = 0;
        let mut typedefs: Vec<(String, &str)> = vec![];
        let mut gdefs: Vec<(String, &str)> = vec![];
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..e];
            if line.starts_with('%') {
                let l = lex(line);
                if let Tok::L(n) = &l[0] { typedefs.push((n.clone(), line)); }
            } else if line.starts_with('@') {
                let l = if let Some(r) = line.strip_prefix("@\"") { r[..r.find('"').unwrap()].to_string() } else { line[1..].split(|c: char| c == ' ').next().unwrap().to_string() };
                gdefs.push((l, line));
            } else if line.starts_with("define ") {
                let end = text[pos..].find("\n}").map(|x| pos + x + 2).unwrap();
                let name = fn_name(line);
                let k = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), k);
                m.gaddr.insert(name.clone(), (FUNC_BASE + k as u64) << SLOT);
                m.funcs.push(FuncDecl { name, start: pos, end, body: None });
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                let k = m.exts.len() as u32;
                m.gaddr.insert(name.clone(), (FUNC_BASE + (1 << 20) + k as u64) << SLOT);
                m.eidx.insert(name.clone(), k);
                m.exts.push(name);
            }
            pos = e + 1;
        }
        // named types (may refer forward: iterate)
        let mut pending = typedefs;
        while !pending.is_empty() {
            let mut rest = vec![];
            let n0 = pending.len();
            for (n, line) in pending {
                let mut c = Cur { t: lex(line), i: 1 };
                let ok = c.t.iter().skip(1).all(|t| match t { Tok::L(x) => m.named.contains_key(x), _ => true });
                if !ok { rest.push((n, line)); continue; }
                c.expect(b'=');
                assert!(c.eatw("type"));
                if c.eatw("opaque") { let t = m.ty(Ty::Other); m.named.insert(n, t); continue; }
                let t = m.parse_ty(&mut c);
                m.named.insert(n, t);
            }
            if rest.len() == n0 { panic!("cyclic named types"); }
            pending = rest;
        }
        // globals: addresses first
        let mut inits = vec![];
        for (n, line) in &gdefs {
            let mut c = Cur { t: lex(line), i: 1 };
            c.expect(b'=');
            let (mut ext, mut ro) = (false, false);
            loop {
                let w = match c.peek() { Some(Tok::W(w)) => *w, _ => panic!("global {}", line) };
                match w {
                    "external" | "extern_weak" => ext = true,
                    "constant" => { ro = true; c.i += 1; break; }
                    "global" => { c.i += 1; break; }
                    "alias" => {
                        let tgt = c.t.iter().rev().find_map(|t| if let Tok::G(g) = t { Some(g.clone()) } else { None }).unwrap();
                        m.alias.insert(n.clone(), tgt);
                        break;
                    }
                    _ => {}
                }
                c.i += 1;
                if c.peek() == Some(&Tok::P(b'(')) { c.skip_parens(); }
            }
            if m.alias.contains_key(n) { continue; }
            let t = m.parse_ty(&mut c);
            let (s, _) = m.size_align(t);
            let addr = m.next_obj << SLOT;
            m.next_obj += 1 + (s >> SLOT);
            m.gaddr.insert(n.clone(), addr);
            m.globals.push(GlobalDecl { name: n.clone(), addr, size: s, ro, init: vec![0; s as usize] });
            if !ext { inits.push((m.globals.len() - 1, t, c)); }
        }
        let al: Vec<_> = m.alias.clone().into_iter().collect();
        for (a, t) in al {
            if let Some(&x) = m.gaddr.get(&t) { m.gaddr.insert(a.clone(), x); }
            if let Some(&x) = m.fidx.get(&t) { m.fidx.insert(a, x); }
        }
        for (gi, t, mut c) in inits {
            let v = m.parse_const(t, &mut c);
            let mut buf = vec![0u8; m.globals[gi].size as usize];
            m.write_const(t, &v, &mut buf, 0);
            m.globals[gi].init = buf;
        }
        m.text = text;
        m
    }
    fn write_const(&self, t: TyId, v: &Val, buf: &mut [u8], off: usize) {
        match v {
            Val::A(xs) => for (i, x) in xs.iter().enumerate() {
                let (o, ft) = self.field_off(t, i);
                self.write_const(ft, x, buf, off + o as usize);
            },
            v => {
                let n = ((self.bits(t) + 7) / 8) as usize;
                let b = v.conc().unwrap().to_le_bytes();
                buf[off..off + n].copy_from_slice(&b[..n]);
            }
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Int(w) => Val::of(*w, 0),
            Ty::Ptr | Ty::F32 | Ty::F64 | Ty::Void | Ty::Other => Val::I(0),
            Ty::Arr(n, e) => { let z = self.zero(*e); Val::A(std::rc::Rc::new(vec![z; *n as usize])) }
            Ty::Vec(n, e) => { let z = self.zero(*e); Val::A(std::rc::Rc::new(vec![z; *n as usize])) }
            Ty::St(f, _) => Val::A(std::rc::Rc::new(f.iter().map(|&x| self.zero(x)).collect())),
        }
    }
    pub fn parse_const(&mut self, t: TyId, c: &mut Cur) -> Val {
        match c.next() {
            Tok::W("true") => Val::I(1),
            Tok::W("false") | Tok::W("null") => Val::I(0),
            Tok::W("undef") | Tok::W("poison") | Tok::W("zeroinitializer") | Tok::W("none") => self.zero(t),
            Tok::W("splat") => {
                c.expect(b'(');
                let et = self.parse_ty(c);
                let v = self.parse_const(et, c);
                c.expect(b')');
                let n = self.nfields(t);
                Val::A(std::rc::Rc::new(vec![v; n]))
            }
            Tok::W("getelementptr") => {
                while let Some(w) = c.word() { if w == "inbounds" || w == "nuw" || w == "nusw" { c.i += 1; } else if w == "inrange" { c.i += 1; c.skip_parens(); } else { break; } }
                c.expect(b'(');
                let mut et = self.parse_ty(c);
                c.expect(b',');
                let pt = self.parse_ty(c);
                let base = self.parse_const(pt, c).conc().unwrap() as u64;
                let mut off = 0i64;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.parse_ty(c);
                    let v = self.parse_const(it, c).conc().unwrap();
                    let v = crate::expr::sx(v, self.bits(it)) as i64;
                    if first { off += v * self.size_align(et).0 as i64; first = false; }
                    else { let (o, ft) = self.field_off_dyn(et, v); off += o; et = ft; }
                }
                c.expect(b')');
                Val::I(base.wrapping_add(off as u64))
            }
            Tok::W(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast")) => {
                c.expect(b'(');
                let ft = self.parse_ty(c);
                let v = self.parse_const(ft, c);
                assert!(c.eatw("to"));
                let tt = self.parse_ty(c);
                c.expect(b')');
                if op == "bitcast" { return v; }
                let w = self.bits(tt);
                Val::of(w, v.conc().unwrap() & crate::expr::mask(w))
            }
            Tok::W(op @ ("add" | "sub" | "mul" | "xor" | "shl")) => {
                while let Some(w) = c.word() { if w == "nuw" || w == "nsw" { c.i += 1; } else { break; } }
                c.expect(b'(');
                let ta = self.parse_ty(c);
                let a = self.parse_const(ta, c).conc().unwrap();
                c.expect(b',');
                let tb = self.parse_ty(c);
                let b = self.parse_const(tb, c).conc().unwrap();
                c.expect(b')');
                let r = match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, _ => a << b };
                let w = self.bits(ta);
                Val::of(w, r & crate::expr::mask(w))
            }
            Tok::W(w) => {
                match self.tys[t as usize].clone() {
                    Ty::Int(n) => { let v: i128 = w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int {}", w))); Val::of(n, (v as u128) & crate::expr::mask(n)) }
                    Ty::F64 => Val::I(parse_f64(w).to_bits()),
                    Ty::F32 => Val::I((parse_f64(w) as f32).to_bits() as u64),
                    x => panic!("const {} of {:?} in {:?}", w, x, c.t),
                }
            }
            Tok::G(g) => Val::I(*self.gaddr.get(&g).unwrap_or_else(|| panic!("unknown global {}", g))),
            Tok::S(v) => Val::A(std::rc::Rc::new(v.into_iter().map(|b| Val::I(b as u64)).collect())),
            Tok::P(b'[') => self.const_list(c, b']'),
            Tok::P(b'{') => self.const_list(c, b'}'),
            Tok::P(b'<') => {
                if c.eat(b'{') { let v = self.const_list(c, b'}'); c.expect(b'>'); v } else { self.const_list(c, b'>') }
            }
            x => panic!("const {:?} in {:?}", x, c.t),
        }
    }
    fn field_off_dyn(&self, t: TyId, i: i64) -> (i64, TyId) {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size_align(*e).0 as i64 * i, *e),
            _ => { let (o, t) = self.field_off(t, i as usize); (o as i64, t) }
        }
    }
    fn const_list(&mut self, c: &mut Cur, end: u8) -> Val {
        let mut v = vec![];
        if !c.eat(end) {
            loop {
                let t = self.parse_ty(c);
                v.push(self.parse_const(t, c));
                if c.eat(end) { break; }
                c.expect(b',');
            }
        }
        Val::A(std::rc::Rc::new(v))
    }

    pub fn body(&mut self, fi: u32) -> std::rc::Rc<Func> {
        if let Some(b) = &self.funcs[fi as usize].body { return b.clone(); }
        let f = FnParser::parse(self, fi);
        let r = std::rc::Rc::new(f);
        self.funcs[fi as usize].body = Some(r.clone());
        r
    }
}

fn parse_f64(w: &str) -> f64 {
    if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { w.parse().unwrap() }
}

pub fn fn_name(line: &str) -> String {
    // first '@' in the line
    let p = line.find('@').unwrap();
    let r = &line[p + 1..];
    if let Some(q) = r.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() } else { r[..r.find('(').unwrap()].to_string() }
}

struct FnParser { regs: HashMap<String, u32>, labels: HashMap<String, u32> }

impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn lab(&mut self, n: &str) -> u32 { *self.labels.get(n).unwrap_or_else(|| panic!("label {}", n)) }
    fn opd(&mut self, m: &mut Module, t: TyId, c: &mut Cur) -> Opd {
        if let Some(Tok::L(n)) = c.peek() { let n = n.clone(); c.i += 1; return Opd::R(self.reg(&n)); }
        Opd::C(m.parse_const(t, c))
    }
    fn tyopd(&mut self, m: &mut Module, c: &mut Cur) -> (TyId, Opd) {
        let t = m.parse_ty(c);
        m.skip_attrs(c);
        let o = self.opd(m, t, c);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        assert!(c.eatw("label"));
        match c.next() { Tok::L(n) => self.lab(&n), t => panic!("label {:?}", t) }
    }
    fn parse(m: &mut Module, fi: u32) -> Func {
        let src = m.funcs[fi as usize].start..m.funcs[fi as usize].end;
        let text = m.text[src].to_string();
        let mut p = FnParser { regs: HashMap::new(), labels: HashMap::new() };
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        // parameters
        let at = head.find('@').unwrap();
        let hr = &head[at..];
        let hl = lex(hr);
        let mut c = Cur { t: hl, i: 1 };
        c.expect(b'(');
        let mut params = 0;
        let mut pn = 0;
        if !c.eat(b')') {
            loop {
                if c.eat(b'.') { break; }
                if c.word() == Some("...") { break; }
                let _t = m.parse_ty(&mut c);
                m.skip_attrs(&mut c);
                let n = match c.peek() { Some(Tok::L(n)) => { let n = n.clone(); c.i += 1; n } _ => { let n = pn.to_string(); n } };
                if n == pn.to_string() { pn += 1; }
                let r = p.reg(&n);
                assert_eq!(r, params);
                params += 1;
                if c.eat(b')') { break; }
                c.expect(b',');
            }
        }
        // logical lines
        let mut log: Vec<String> = vec![];
        let mut acc: Option<String> = None;
        for l in lines {
            if l == "}" { break; }
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") { continue; }
            if let Some(a) = acc.as_mut() {
                a.push(' ');
                a.push_str(t);
                if a.contains("switch ") { if t.starts_with(']') { log.push(acc.take().unwrap()); } }
                else { log.push(acc.take().unwrap()); }
                continue;
            }
            if t.starts_with("switch ") && !t.contains(']') { acc = Some(t.to_string()); continue; }
            if (t.starts_with("invoke ") || t.contains("= invoke ")) && !t.contains(" unwind label") { acc = Some(t.to_string()); continue; }
            if l.starts_with(' ') { 
                // landingpad clauses
                if (t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ")) && log.last().map_or(false, |x| x.contains("landingpad")) { continue; }
                log.push(t.to_string());
            } else { log.push(format!("LABEL {}", t)); }
        }
        // labels
        let mut order = vec![];
        if !log.first().map_or(false, |l| l.starts_with("LABEL ")) {
            // implicit entry label is numbered
            log.insert(0, format!("LABEL {}:", pn));
        }
        for l in &log {
            if let Some(r) = l.strip_prefix("LABEL ") {
                let n = if let Some(q) = r.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() } else { r[..r.find(':').unwrap()].to_string() };
                p.labels.insert(n.clone(), order.len() as u32);
                order.push(n);
            }
        }
        let mut blocks: Vec<Block> = vec![];
        for l in &log {
            if l.starts_with("LABEL ") { blocks.push(Block { phis: vec![], insts: vec![] }); continue; }
            let b = blocks.last_mut().unwrap();
            p.inst(m, l, b);
        }
        Func { nregs: p.regs.len() as u32, params, blocks }
    }
    fn inst(&mut self, m: &mut Module, line: &str, blk: &mut Block) {
        let mut c = Cur { t: lex(line), i: 0 };
        let mut d: Option<u32> = None;
        if let (Some(Tok::L(n)), Some(Tok::P(b'='))) = (c.t.get(0), c.t.get(1)) {
            let n = n.clone();
            d = Some(self.reg(&n));
            c.i = 2;
        }
        let op = match c.next() { Tok::W(w) => w, t => panic!("opcode {:?} in {}", t, line) };
        let dd = d.unwrap_or(u32::MAX);
        let skipw = |c: &mut Cur, ws: &[&str]| { while let Some(w) = c.word() { if ws.contains(&w) { c.i += 1; } else { break; } } };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                skipw(&mut c, &["nuw", "nsw", "exact", "disjoint"]);
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let b = self.opd(m, t, &mut c);
                let (w, lanes) = vecw(m, t);
                let op = match op { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem,
                    "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
                blk.insts.push(Inst::Bin { op, w, lanes, d: dd, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                skipw(&mut c, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (t, a) = self.tyopd(m, &mut c);
                let b = if op == "fneg" { Opd::C(Val::I(0)) } else { c.expect(b','); self.opd(m, t, &mut c) };
                let dbl = match m.tys[t as usize] { Ty::F64 => true, Ty::F32 => false, _ => panic!("vector float op: {}", line) };
                let op = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, "frem" => FOp::Rem, _ => FOp::Neg };
                blk.insts.push(Inst::FBin { op, dbl, d: dd, a, b });
            }
            "icmp" => {
                skipw(&mut c, &["samesign"]);
                let pr = match c.next() { Tok::W(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) }, _ => panic!() };
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let b = self.opd(m, t, &mut c);
                let (w, lanes) = vecw(m, t);
                blk.insts.push(Inst::ICmp { pred: pr, w, lanes, d: dd, a, b });
            }
            "fcmp" => {
                skipw(&mut c, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let pr = match c.next() { Tok::W(w) => w, _ => panic!() };
                // bit 0: eq, 1: lt, 2: gt, 3: unordered
                let pred = match pr { "false" => 0, "oeq" => 1, "olt" => 2, "ole" => 3, "ogt" => 4, "oge" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ult" => 10,
                    "ule" => 11, "ugt" => 12, "uge" => 13, "une" => 14, "true" => 15, x => panic!("fcmp {}", x) };
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let b = self.opd(m, t, &mut c);
                let dbl = match m.tys[t as usize] { Ty::F64 => true, Ty::F32 => false, _ => panic!("vector fcmp") };
                blk.insts.push(Inst::FCmp { pred, dbl, d: dd, a, b });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                skipw(&mut c, &["nuw", "nsw", "nneg", "fast", "contract"]);
                let (from, a) = self.tyopd(m, &mut c);
                assert!(c.eatw("to"));
                let to = m.parse_ty(&mut c);
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" | "addrspacecast" => Cast::BitCast, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                blk.insts.push(Inst::Cast { k, from, to, d: dd, a });
            }
            "load" => {
                skipw(&mut c, &["volatile", "atomic"]);
                let t = m.parse_ty(&mut c);
                c.expect(b',');
                let (_, p) = self.tyopd(m, &mut c);
                blk.insts.push(Inst::Load { d: dd, ty: t, p });
            }
            "store" => {
                skipw(&mut c, &["volatile", "atomic"]);
                let (t, v) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, p) = self.tyopd(m, &mut c);
                blk.insts.push(Inst::Store { ty: t, v, p });
            }
            "getelementptr" => {
                loop { match c.word() { Some("inbounds") | Some("nuw") | Some("nusw") => c.i += 1, Some("inrange") => { c.i += 1; c.skip_parens(); } _ => break } }
                let mut et = m.parse_ty(&mut c);
                c.expect(b',');
                let (_, base) = self.tyopd(m, &mut c);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while c.eat(b',') {
                    if matches!(c.peek(), Some(Tok::W(w)) if w.starts_with('!')) { break; }
                    let (it, o) = self.tyopd(m, &mut c);
                    let w = m.bits(it);
                    let sc;
                    if first {
                        sc = m.size_align(et).0 as i64;
                        first = false;
                    } else {
                        match m.tys[et as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { sc = m.size_align(e).0 as i64; et = e; }
                            _ => {
                                let k = match &o { Opd::C(v) => v.conc().unwrap() as usize, _ => panic!("gep struct idx") };
                                let (fo, ft) = m.field_off(et, k);
                                off += fo as i64;
                                et = ft;
                                continue;
                            }
                        }
                    }
                    match &o {
                        Opd::C(v) => off += crate::expr::sx(v.conc().unwrap(), w) as i64 * sc,
                        _ => idx.push((o, w, sc)),
                    }
                }
                blk.insts.push(Inst::Gep { d: dd, base, off, idx });
            }
            "select" => {
                skipw(&mut c, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (ct, cc) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, b) = self.tyopd(m, &mut c);
                let vecc = if let Ty::Vec(n, _) = m.tys[ct as usize] { n } else { 0 };
                blk.insts.push(Inst::Select { d: dd, ty: t, vecc, c: cc, a, b });
            }
            "alloca" => {
                let t = m.parse_ty(&mut c);
                let size = m.size_align(t).0;
                blk.insts.push(Inst::Alloca { d: dd, size });
            }
            "tail" | "musttail" | "notail" => { assert!(c.eatw("call")); self.call(m, &mut c, d, blk, line); }
            "call" => self.call(m, &mut c, d, blk, line),
            "invoke" => {
                self.call(m, &mut c, d, blk, line);
                // find "to label"
                while !(c.word() == Some("to")) { c.i += 1; }
                c.i += 1;
                let t = self.label(&mut c);
                blk.insts.push(Inst::Br(t));
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(m, &mut c);
                let mut path = vec![];
                while c.eat(b',') { match c.next() { Tok::W(w) if !w.starts_with('!') => path.push(w.parse().unwrap()), _ => break } }
                blk.insts.push(Inst::Extract { d: dd, a, path });
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, v) = self.tyopd(m, &mut c);
                let mut path = vec![];
                while c.eat(b',') { match c.next() { Tok::W(w) if !w.starts_with('!') => path.push(w.parse().unwrap()), _ => break } }
                blk.insts.push(Inst::Insert { d: dd, ty: t, a, v, path });
            }
            "extractelement" => {
                let (_, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, i) = self.tyopd(m, &mut c);
                blk.insts.push(Inst::ExtElem { d: dd, a, i });
            }
            "insertelement" => {
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, v) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, i) = self.tyopd(m, &mut c);
                let lanes = m.nfields(t) as u32;
                blk.insts.push(Inst::InsElem { d: dd, lanes, a, v, i });
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, b) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_mt, mv) = self.tyopd(m, &mut c);
                let mask = match mv { Opd::C(Val::A(v)) => v.iter().map(|x| x.conc().unwrap() as i64).collect(), _ => panic!("shuffle mask") };
                blk.insts.push(Inst::Shuffle { d: dd, a, b, lanes: m.nfields(t) as u32, mask });
            }
            "freeze" => { let (_, a) = self.tyopd(m, &mut c); blk.insts.push(Inst::Copy { d: dd, a }); }
            "fence" => blk.insts.push(Inst::Nop),
            "landingpad" => blk.insts.push(Inst::Nop),
            "resume" => blk.insts.push(Inst::Unreachable),
            "cmpxchg" => {
                skipw(&mut c, &["weak", "volatile"]);
                let (_, p) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (t, cv) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (_, n) = self.tyopd(m, &mut c);
                blk.insts.push(Inst::CmpXchg { d: dd, ty: t, p, c: cv, n });
            }
            "atomicrmw" => {
                skipw(&mut c, &["volatile"]);
                let o = match c.next() { Tok::W("xchg") => Rmw::Xchg, Tok::W("add") => Rmw::Add, Tok::W("sub") => Rmw::Sub, Tok::W("and") => Rmw::And, Tok::W("or") => Rmw::Or, Tok::W("xor") => Rmw::Xor,
                    Tok::W("umax") => Rmw::Umax, Tok::W("umin") => Rmw::Umin, t => panic!("rmw {:?}", t) };
                let (_, p) = self.tyopd(m, &mut c);
                c.expect(b',');
                let (t, v) = self.tyopd(m, &mut c);
                blk.insts.push(Inst::Rmw { d: dd, op: o, ty: t, p, v });
            }
            "phi" => {
                skipw(&mut c, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = m.parse_ty(&mut c);
                let mut inc = vec![];
                loop {
                    c.expect(b'[');
                    let o = self.opd(m, t, &mut c);
                    c.expect(b',');
                    let l = match c.next() { Tok::L(n) => self.lab(&n), t => panic!("phi {:?}", t) };
                    c.expect(b']');
                    inc.push((l, o));
                    if !c.eat(b',') { break; }
                    if c.peek() != Some(&Tok::P(b'[')) { break; }
                }
                blk.phis.push(Phi { d: dd, inc });
            }
            "br" => {
                if c.word() == Some("label") { let t = self.label(&mut c); blk.insts.push(Inst::Br(t)); }
                else {
                    let (_, cc) = self.tyopd(m, &mut c);
                    c.expect(b',');
                    let t = self.label(&mut c);
                    c.expect(b',');
                    let f = self.label(&mut c);
                    blk.insts.push(Inst::CondBr { c: cc, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(m, &mut c);
                c.expect(b',');
                let def = self.label(&mut c);
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let ct = m.parse_ty(&mut c);
                    let k = m.parse_const(ct, &mut c).conc().unwrap();
                    c.expect(b',');
                    let l = self.label(&mut c);
                    cases.push((k, l));
                }
                blk.insts.push(Inst::Switch { w: m.bits(t), v, def, cases });
            }
            "ret" => {
                if c.word() == Some("void") { blk.insts.push(Inst::Ret(None)); }
                else { let (_, v) = self.tyopd(m, &mut c); blk.insts.push(Inst::Ret(Some(v))); }
            }
            "unreachable" => blk.insts.push(Inst::Unreachable),
            _ => panic!("unknown opcode {} in {}", op, line),
        }
    }
    fn call(&mut self, m: &mut Module, c: &mut Cur, d: Option<u32>, blk: &mut Block, line: &str) {
        // flags, calling convention, ret attrs
        loop {
            if Module::is_ty_start(c) { break; }
            match c.word() {
                Some("align") => { c.i += 1; if c.peek() == Some(&Tok::P(b'(')) { c.skip_parens(); } else { c.i += 1; } }
                Some(_) => { c.i += 1; if c.peek() == Some(&Tok::P(b'(')) { c.skip_parens(); } }
                None => panic!("call {}", line),
            }
        }
        let rty = m.parse_ty(c);
        if c.peek() == Some(&Tok::P(b'(')) { c.skip_parens(); } // function type
        let callee = match c.next() {
            Tok::G(g) => {
                if g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.assume") || g.starts_with("llvm.dbg") || g.starts_with("llvm.x86.sse2.pause") {
                    blk.insts.push(Inst::Nop);
                    return;
                }
                let g = m.alias.get(&g).cloned().unwrap_or(g);
                if let Some(&f) = m.fidx.get(&g) { Callee::F(f) } else { Callee::Ext(*m.eidx.get(&g).unwrap_or_else(|| panic!("callee {}", g))) }
            }
            Tok::L(n) => Callee::Ind(Opd::R(self.reg(&n))),
            Tok::W("asm") => {
                // inline assembly: only compiler barriers are expected; skip it
                blk.insts.push(Inst::Nop);
                while c.word() != Some("to") && c.i < c.t.len() { c.i += 1; }
                return;
            }
            t => panic!("callee {:?} in {}", t, line),
        };
        c.expect(b'(');
        let mut args = vec![];
        let mut aw = 0;
        if !c.eat(b')') {
            loop {
                if c.word() == Some("metadata") { // skip metadata operand
                    while !matches!(c.peek(), Some(Tok::P(b',')) | Some(Tok::P(b')'))) { c.i += 1; }
                } else {
                    let (t, o) = self.tyopd(m, c);
                    if args.is_empty() { aw = match m.tys[t as usize] { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, e) => (n << 16) | m.bits(e), _ => 0 }; }
                    args.push(o);
                }
                if c.eat(b')') { break; }
                c.expect(b',');
            }
        }
        blk.insts.push(Inst::Call { d, callee, args, rty, aw });
    }
}

pub fn vecw(m: &Module, t: TyId) -> (u32, u32) {
    match &m.tys[t as usize] { Ty::Vec(n, e) => (m.bits(*e), *n), _ => (m.bits(t), 0) }
}
