//! Models of external functions: LLVM intrinsics, the libc surface std uses, and the harness hypercalls.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::concat_le;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    MemCpy, MemSet, Ctlz, Cttz, Ctpop, Bswap, BitReverse, Fshl, Fshr,
    Ov(BinOp, bool), Sat(BinOp, bool), MinMax(bool, bool), Abs, Ucmp(bool), IsConst, TlsAddr, Trap, Expect, Pmovmskb,
    F1(&'static str, bool), F2(&'static str, bool), Fma(bool), FpToIntSat(bool), Reduce(&'static str), ObjSize,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Bcmp, Memcmp, Strlen, Memchr,
    Open, Read, Stat, Pread, Pwrite, Iov(bool), Ftruncate, Unlink, Rename, Write, Close, Fcntl, Lseek, Fstat, Statx, Getrandom, Getenv, Errno, Zero, Minus1, One, Abort, KeyCreate, ClockGettime,
    SxByte, SxAssume, SxFail, SxWitness, SxObserve, SxPut, SxGet, SxParam, SxPanicOk, SxConc, SxNote, SxReject, SxIte, SxArgs, SxSelByte, SxSymbolic, SxPureIsSym,
    Unknown,
}

pub fn classify(n: &str) -> X {
    let base = n.strip_prefix("llvm.").unwrap_or("");
    let part = |p: &str| base.starts_with(p);
    if n.starts_with("llvm.") {
        let dbl = n.ends_with("f64");
        let f1 = ["fabs", "floor", "ceil", "trunc", "sqrt", "rint", "nearbyint", "round", "roundeven", "exp", "exp2", "log", "log2", "log10", "sin", "cos"];
        for f in f1 { if part(&format!("{}.f", f)) { return X::F1(f, dbl); } }
        for f in ["copysign", "pow", "minnum", "maxnum", "minimum", "maximum"] { if part(&format!("{}.f", f)) { return X::F2(f, dbl); } }
        for f in ["minimumnum", "maximumnum"] { if part(&format!("{}.f", f)) { return X::F2(if f == "minimumnum" { "minnum" } else { "maxnum" }, dbl); } }
        if part("fma.") || part("fmuladd.") { return X::Fma(dbl); }
        if part("memcpy") || part("memmove") { return X::MemCpy; }
        if part("memset") { return X::MemSet; }
        if part("ctlz") { return X::Ctlz; }
        if part("cttz") { return X::Cttz; }
        if part("ctpop") { return X::Ctpop; }
        if part("bswap") { return X::Bswap; }
        if part("bitreverse") { return X::BitReverse; }
        if part("fshl") { return X::Fshl; }
        if part("fshr") { return X::Fshr; }
        for (p, o, s) in [("uadd", BinOp::Add, false), ("usub", BinOp::Sub, false), ("umul", BinOp::Mul, false), ("sadd", BinOp::Add, true), ("ssub", BinOp::Sub, true), ("smul", BinOp::Mul, true)] {
            if part(&format!("{}.with.overflow", p)) { return X::Ov(o, s); }
            if part(&format!("{}.sat", p)) { return X::Sat(o, s); }
        }
        if part("umin") { return X::MinMax(false, false); }
        if part("umax") { return X::MinMax(true, false); }
        if part("smin") { return X::MinMax(false, true); }
        if part("smax") { return X::MinMax(true, true); }
        if part("abs") { return X::Abs; }
        if part("ucmp") { return X::Ucmp(false); }
        if part("scmp") { return X::Ucmp(true); }
        if part("is.constant") { return X::IsConst; }
        if part("threadlocal.address") { return X::TlsAddr; }
        if part("trap") || part("ubsantrap") { return X::Trap; }
        if part("expect") { return X::Expect; }
        if part("x86.sse2.pmovmskb") { return X::Pmovmskb; }
        if part("fptoui.sat") { return X::FpToIntSat(false); }
        if part("fptosi.sat") { return X::FpToIntSat(true); }
        if part("objectsize") { return X::ObjSize; }
        for r in ["or", "and", "add", "umax", "umin", "xor", "mul", "smax", "smin"] { if part(&format!("vector.reduce.{}.", r)) { return X::Reduce(r); } }
        if part("memory.barrier") || part("prefetch") || part("va_") || part("stacksave") || part("stackrestore") { return X::Zero; }
        return X::Unknown;
    }
    match n {
        "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::PosixMemalign,
        "bcmp" => X::Bcmp, "memcmp" => X::Memcmp, "strlen" => X::Strlen, "memchr" => X::Memchr,
        "memcpy" | "memmove" => X::MemCpy, "memset" => X::MemSet,
        "open64" | "open" => X::Open, "read" => X::Read, "write" => X::Write, "close" => X::Close, "fcntl" | "fcntl64" => X::Fcntl, "lseek64" | "lseek" => X::Lseek, "fstat64" | "fstat" => X::Fstat, "statx" => X::Statx, "stat64" | "stat" | "lstat64" | "lstat" => X::Stat,
        "pread64" | "pread" => X::Pread, "pwrite64" | "pwrite" => X::Pwrite, "readv" => X::Iov(false), "writev" => X::Iov(true), "ftruncate64" | "ftruncate" => X::Ftruncate, "unlink" => X::Unlink, "rename" => X::Rename,
        "getrandom" => X::Getrandom, "getenv" => X::Getenv, "__errno_location" => X::Errno,
        "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_getspecific" | "pthread_self" | "sched_yield" | "fsync" | "fdatasync" | "isatty" | "mkdir" | "chmod" | "fchmod" | "nanosleep" | "clock_nanosleep" | "dlsym" | "pause" | "flock" | "posix_fadvise64" => X::Zero,
        "gettid" | "getpid" => X::One,
        "pthread_key_create" => X::KeyCreate,
        "syscall" | "readlink" | "getcwd" | "realpath" => X::Minus1,
        "clock_gettime" => X::ClockGettime,
        "abort" | "_exit" | "exit" => X::Abort,
        "fmod" => X::F2("fmod", true), "fmodf" => X::F2("fmod", false), "pow" => X::F2("pow", true), "powf" => X::F2("pow", false),
        "floor" => X::F1("floor", true), "ceil" => X::F1("ceil", true), "trunc" => X::F1("trunc", true), "round" => X::F1("round", true),
        "__sx_byte" => X::SxByte, "__sx_assume" => X::SxAssume, "__sx_fail" => X::SxFail, "__sx_witness" => X::SxWitness, "__sx_observe" => X::SxObserve,
        "__sx_file_put" => X::SxPut, "__sx_file_get" => X::SxGet, "__sx_param" => X::SxParam, "__sx_panic_ok" => X::SxPanicOk, "__sx_concretize" => X::SxConc,
        "__sx_note" => X::SxNote, "__sx_reject" => X::SxReject, "__sx_ite" => X::SxIte, "__sx_args" => X::SxArgs,
        _ => X::Unknown,
    }
}

impl Engine {
    fn fd_read(&mut self, st: &mut State, fd: u64, p: u64, n: u64, at: Option<u64>) -> R<u64> {
        let f = match st.fds.get_mut(&fd) { Some(f) => f, None => { self.set_errno(st, 9)?; return Ok(u64::MAX); } };
        let file = &st.files[&f.name];
        let pos = at.unwrap_or(f.pos);
        let k = (file.d.len() as u64).saturating_sub(pos).min(n);
        if k == 0 { return Ok(0); }
        let (a, b) = (pos as usize, (pos + k) as usize);
        let d = file.d[a..b].to_vec();
        let s = if file.s.is_empty() { vec![] } else { file.s[a..b].to_vec() };
        if at.is_none() { f.pos += k; }
        if !st.mem.write_bytes(p, &d, &s) { return Err(self.fault(st, "read()", p, n)); }
        Ok(k)
    }
    fn fd_write(&mut self, st: &mut State, fd: u64, p: u64, n: u64, at: Option<u64>) -> R<u64> {
        if fd == 1 || fd == 2 { return Ok(n); }
        let (d, s) = match st.mem.bytes(p, n) { Some(x) => x, None => return Err(self.fault(st, "write()", p, n)) };
        let f = match st.fds.get_mut(&fd) { Some(f) => f, None => { self.set_errno(st, 9)?; return Ok(u64::MAX); } };
        let file = st.files.get_mut(&f.name).unwrap();
        let pos = if f.app { file.d.len() as u64 } else { at.unwrap_or(f.pos) };
        let end = (pos + n) as usize;
        if end > 1 << 26 { return Err(End::Inconclusive("a file of more than 64 MB".into())); }
        if file.d.len() < end { file.d.resize(end, 0); }
        if file.s.len() < file.d.len() { file.s.resize(file.d.len(), 0); }
        let a = pos as usize;
        file.d[a..end].copy_from_slice(&d);
        for i in 0..n as usize { file.s[a + i] = if s.is_empty() { 0 } else { s[i] }; }
        if at.is_none() { f.pos = pos + n; }
        Ok(n)
    }
    fn a(&mut self, st: &mut State, v: &Val) -> R<u64> { Ok(self.conc(st, v, "arg")? as u64) }
    pub fn cstr(&mut self, st: &State, mut a: u64) -> R<String> {
        let mut s = vec![];
        loop {
            let v = self.load_scalar(st, a, 8)?;
            match v { Val::I(0) => break, Val::I(c) => s.push(c as u8), _ => return Err(End::Inconclusive("symbolic C string".into())) }
            a += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn set_errno(&mut self, st: &mut State, e: u32) -> R<()> { let a = self.errno_addr(); self.store_scalar(st, a, 32, &Val::I(e as u64)) }
    fn errno_addr(&self) -> u64 { 2 << SLOT }
    fn rstr(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.a(st, p)?, self.a(st, n)?);
        let (mut d, s) = st.mem.bytes(p, n).ok_or_else(|| End::Crash("bad string in hypercall".into()))?;
        if !s.is_empty() {
            self.p.new_model();
            for i in 0..d.len() { if s[i] != 0 { d[i] = self.p.eval(s[i], &st.model) as u8; } }
        }
        Ok(String::from_utf8_lossy(&d).into_owned())
    }
    fn lanes1(&mut self, st: &mut State, args: &[Val], aw: u32, f: &mut dyn FnMut(&mut Engine, &mut State, &[Val], u32) -> R<Val>) -> R<Val> {
        let n = aw >> 16;
        if n == 0 { return f(self, st, args, aw); }
        let w = aw & 0xffff;
        let mut out = vec![];
        for i in 0..n as usize {
            let xs: Vec<Val> = args.iter().map(|a| match a { Val::A(v) => v[i].clone(), x => x.clone() }).collect();
            out.push(f(self, st, &xs, w)?);
        }
        Ok(Val::A(Rc::new(out)))
    }

    pub fn external(&mut self, st: &mut State, x: u32, args: Vec<Val>, rty: TyId, aw: u32) -> R<Val> {
        let kind = self.ek[x as usize].clone();
        match kind {
            X::MemCpy => {
                let n = self.a(st, &args[2])?;
                let d = self.a(st, &args[0])?;
                let s = self.a(st, &args[1])?;
                if n > 0 {
                    let (db, sb) = match st.mem.bytes(s, n) { Some(x) => x, None => return Err(self.fault(st, "memcpy read", s, n)) };
                    if !st.mem.write_bytes(d, &db, &sb) { return Err(self.fault(st, "memcpy write", d, n)); }
                }
                Ok(args[0].clone())
            }
            X::MemSet => {
                let n = self.a(st, &args[2])?;
                let d = self.a(st, &args[0])?;
                if n > 0 {
                    if st.mem.find(d, n).is_none() { return Err(self.fault(st, "memset", d, n)); }
                    let (data, sym) = match &args[1] {
                        Val::S(e) => { let mut e = *e; if self.p.w(e) > 8 { e = self.p.extract(e, 7, 0); } (vec![0u8; n as usize], vec![e; n as usize]) }
                        v => (vec![v.conc().unwrap() as u8; n as usize], vec![]),
                    };
                    if !st.mem.write_bytes(d, &data, &sym) { return Err(self.fault(st, "memset", d, n)); }
                }
                Ok(args[0].clone())
            }
            X::Ctlz | X::Cttz | X::Ctpop | X::Bswap | X::BitReverse => {
                self.lanes1(st, &args[..1], aw, &mut |en, _st, a, w| {
                    if let Some(v) = a[0].conc() {
                        let r = match kind {
                            X::Ctlz => (v.leading_zeros() - (128 - w)) as u128,
                            X::Cttz => if v == 0 { w as u128 } else { v.trailing_zeros() as u128 },
                            X::Ctpop => v.count_ones() as u128,
                            X::Bswap => v.swap_bytes() >> (128 - w),
                            _ => v.reverse_bits() >> (128 - w),
                        };
                        return Ok(Val::of(w, r));
                    }
                    let e = en.e(&a[0], w);
                    let r = match kind {
                        X::Ctlz => {
                            let mut r = en.p.konst(w, w as u128);
                            for i in 0..w { let b = en.p.extract(e, i, i); let k = en.p.konst(w, (w - 1 - i) as u128); r = en.p.ite(b, k, r); }
                            r
                        }
                        X::Cttz => {
                            let mut r = en.p.konst(w, w as u128);
                            for i in (0..w).rev() { let b = en.p.extract(e, i, i); let k = en.p.konst(w, i as u128); r = en.p.ite(b, k, r); }
                            r
                        }
                        X::Ctpop => {
                            let mut r = en.p.konst(w, 0);
                            for i in 0..w { let b = en.p.extract(e, i, i); let z = en.p.zext(b, w); r = en.p.bin(Op::Add, r, z); }
                            r
                        }
                        X::Bswap => {
                            let mut r: Option<E> = None;
                            for i in 0..w / 8 { let b = en.p.extract(e, i * 8 + 7, i * 8); r = Some(match r { None => b, Some(x) => en.p.concat(x, b) }); }
                            r.unwrap()
                        }
                        _ => {
                            let mut r: Option<E> = None;
                            for i in 0..w { let b = en.p.extract(e, i, i); r = Some(match r { None => b, Some(x) => en.p.concat(x, b) }); }
                            r.unwrap()
                        }
                    };
                    Ok(en.ve(r))
                })
            }
            X::Fshl | X::Fshr => {
                let w = aw;
                let s = self.conc(st, &args[2], "funnel")? as u32 % w;
                let (a, b) = (self.e(&args[0], w), self.e(&args[1], w));
                let sh = if kind == X::Fshl { s } else { (w - s) % w };
                if s == 0 { return Ok(if kind == X::Fshl { args[0].clone() } else { args[1].clone() }); }
                let h = self.p.extract(a, w - 1 - sh, 0);
                let l = self.p.extract(b, w - 1, w - sh);
                let r = self.p.concat(h, l);
                Ok(self.ve(r))
            }
            X::Ov(op, signed) => {
                let w = aw;
                if let (Some(x), Some(y)) = (args[0].conc(), args[1].conc()) {
                    let m = mask(w);
                    let (r, o) = if !signed {
                        match op {
                            BinOp::Add => { let r = x.wrapping_add(y); (r & m, if w == 128 { x.checked_add(y).is_none() } else { r > m }) }
                            BinOp::Sub => (x.wrapping_sub(y) & m, y > x),
                            _ => { let r = x.wrapping_mul(y); (r & m, match x.checked_mul(y) { None => true, Some(r) => r > m }) }
                        }
                    } else {
                        let (a, b) = (sx(x, w), sx(y, w));
                        let r = match op { BinOp::Add => a.checked_add(b), BinOp::Sub => a.checked_sub(b), _ => a.checked_mul(b) };
                        match r { Some(r) => ((r as u128) & m, sx((r as u128) & m, w) != r), None => (match op { BinOp::Add => a.wrapping_add(b), BinOp::Sub => a.wrapping_sub(b), _ => a.wrapping_mul(b) } as u128 & m, true) }
                    };
                    return Ok(Val::A(Rc::new(vec![Val::of(w, r), Val::I(o as u64)])));
                }
                let (a, b) = (self.e(&args[0], w), self.e(&args[1], w));
                let ew = if op == BinOp::Mul { 2 * w } else { w + 1 };
                if ew > 128 { return Err(End::Inconclusive("wide symbolic overflow arithmetic".into())); }
                let (ax, bx) = if signed { (self.p.sext(a, ew), self.p.sext(b, ew)) } else { (self.p.zext(a, ew), self.p.zext(b, ew)) };
                let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, _ => Op::Mul };
                let r = self.p.bin(o, a, b);
                let ov = if !signed && op == BinOp::Sub { self.p.bin(Op::Ult, a, b) }
                    else if !signed && op == BinOp::Add && w <= 64 && self.p.meta[a as usize].hi + self.p.meta[b as usize].hi <= mask(w) { self.p.konst(1, 0) }
                    else {
                        let f = self.p.bin(o, ax, bx);
                        let back = if signed { self.p.sext(r, ew) } else { self.p.zext(r, ew) };
                        let eq = self.p.bin(Op::Eq, f, back);
                        self.p.not(eq)
                    };
                Ok(Val::A(Rc::new(vec![self.ve(r), self.ve(ov)])))
            }
            X::Sat(op, signed) => {
                self.lanes1(st, &args, aw, &mut |en, st, a, w| {
                    if signed { 
                        let (x, y) = (en.conc(st, &a[0], "sat")?, en.conc(st, &a[1], "sat")?);
                        let (x, y) = (sx(x, w), sx(y, w));
                        let r = if op == BinOp::Add { x.saturating_add(y) } else { x.saturating_sub(y) };
                        let mx = (mask(w) >> 1) as i128;
                        return Ok(Val::of(w, (r.clamp(-mx - 1, mx) as u128) & mask(w)));
                    }
                    let (x, y) = (en.e(&a[0], w), en.e(&a[1], w));
                    let r = if op == BinOp::Sub {
                        let c = en.p.bin(Op::Ult, x, y);
                        let z = en.p.konst(w, 0);
                        let d = en.p.bin(Op::Sub, x, y);
                        en.p.ite(c, z, d)
                    } else {
                        let d = en.p.bin(Op::Add, x, y);
                        let c = en.p.bin(Op::Ult, d, x);
                        let m = en.p.konst(w, mask(w));
                        en.p.ite(c, m, d)
                    };
                    Ok(en.ve(r))
                })
            }
            X::MinMax(max, signed) => {
                self.lanes1(st, &args, aw, &mut |en, _st, a, w| {
                    let (x, y) = (en.e(&a[0], w), en.e(&a[1], w));
                    let c = en.p.bin(if signed { Op::Slt } else { Op::Ult }, x, y);
                    let r = if max { en.p.ite(c, y, x) } else { en.p.ite(c, x, y) };
                    Ok(en.ve(r))
                })
            }
            X::Abs => {
                let w = aw;
                let x = self.e(&args[0], w);
                let z = self.p.konst(w, 0);
                let c = self.p.bin(Op::Slt, x, z);
                let n = self.p.bin(Op::Sub, z, x);
                let r = self.p.ite(c, n, x);
                Ok(self.ve(r))
            }
            X::Ucmp(signed) => {
                let w = aw;
                let rw = self.m.bits(rty);
                let (x, y) = (self.e(&args[0], w), self.e(&args[1], w));
                let lt = self.p.bin(if signed { Op::Slt } else { Op::Ult }, x, y);
                let eq = self.p.bin(Op::Eq, x, y);
                let (m1, z, o) = (self.p.konst(rw, u128::MAX), self.p.konst(rw, 0), self.p.konst(rw, 1));
                let r = self.p.ite(eq, z, o);
                let r = self.p.ite(lt, m1, r);
                Ok(self.ve(r))
            }
            X::IsConst => Ok(Val::I(0)),
            X::TlsAddr | X::Expect => Ok(args[0].clone()),
            X::Trap => Err(End::Crash("trap".into())),
            X::ObjSize => Ok(Val::I(u64::MAX)),
            X::Pmovmskb => {
                let xs = match &args[0] { Val::A(v) => v.clone(), _ => panic!() };
                let mut r: Option<E> = None;
                for x in xs.iter() { let e = self.e(x, 8); let b = self.p.extract(e, 7, 7); r = Some(match r { None => b, Some(a) => self.p.concat(b, a) }); }
                let e = self.p.zext(r.unwrap(), 32);
                Ok(self.ve(e))
            }
            X::Reduce(k) => {
                let xs = match &args[0] { Val::A(v) => v.clone(), _ => panic!() };
                let w = aw & 0xffff;
                let mut r = self.e(&xs[0], w);
                for x in xs.iter().skip(1) {
                    let e = self.e(x, w);
                    r = match k {
                        "or" => self.p.bin(Op::Or, r, e), "and" => self.p.bin(Op::And, r, e), "xor" => self.p.bin(Op::Xor, r, e), "add" => self.p.bin(Op::Add, r, e), "mul" => self.p.bin(Op::Mul, r, e),
                        "umax" => { let c = self.p.bin(Op::Ult, r, e); self.p.ite(c, e, r) }
                        "umin" => { let c = self.p.bin(Op::Ult, r, e); self.p.ite(c, r, e) }
                        "smax" => { let c = self.p.bin(Op::Slt, r, e); self.p.ite(c, e, r) }
                        _ => { let c = self.p.bin(Op::Slt, r, e); self.p.ite(c, r, e) }
                    };
                }
                Ok(self.ve(r))
            }
            X::F1(f, dbl) => {
                let x = self.conc(st, &args[0], "float")?;
                let ap = |v: f64| match f { "fabs" => v.abs(), "floor" => v.floor(), "ceil" => v.ceil(), "trunc" => v.trunc(), "sqrt" => v.sqrt(), "rint" | "nearbyint" | "roundeven" => v.round_ties_even(), "round" => v.round(),
                    "exp" => v.exp(), "exp2" => v.exp2(), "log" => v.ln(), "log2" => v.log2(), "log10" => v.log10(), "sin" => v.sin(), _ => v.cos() };
                Ok(if dbl { Val::I(ap(f64::from_bits(x as u64)).to_bits()) } else {
                    let v = f32::from_bits(x as u32);
                    let r = match f { "fabs" => v.abs(), "floor" => v.floor(), "ceil" => v.ceil(), "trunc" => v.trunc(), "sqrt" => v.sqrt(), "round" => v.round(), "rint" | "nearbyint" | "roundeven" => v.round_ties_even(), _ => ap(v as f64) as f32 };
                    Val::I(r.to_bits() as u64)
                })
            }
            X::F2(f, dbl) => {
                let x = self.conc(st, &args[0], "float")? as u64;
                let y = self.conc(st, &args[1], "float")? as u64;
                Ok(if dbl {
                    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
                    Val::I((match f { "copysign" => a.copysign(b), "pow" => a.powf(b), "minnum" | "minimum" => a.min(b), "maxnum" | "maximum" => a.max(b), _ => a % b }).to_bits())
                } else {
                    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    Val::I((match f { "copysign" => a.copysign(b), "pow" => a.powf(b), "minnum" | "minimum" => a.min(b), "maxnum" | "maximum" => a.max(b), _ => a % b }).to_bits() as u64)
                })
            }
            X::Fma(dbl) => {
                let x = self.conc(st, &args[0], "float")? as u64;
                let y = self.conc(st, &args[1], "float")? as u64;
                let z = self.conc(st, &args[2], "float")? as u64;
                Ok(if dbl { Val::I(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()) } else { Val::I(f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u64) })
            }
            X::FpToIntSat(signed) => {
                let x = self.conc(st, &args[0], "float")? as u64;
                let f32in = self.m.exts[self.cur_ext(st)].ends_with("f32");
                let v = if f32in { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let w = self.m.bits(rty);
                Ok(if signed {
                    let mx = (mask(w) >> 1) as i128;
                    Val::of(w, ((v as i128).clamp(-mx - 1, mx) as u128) & mask(w))
                } else { Val::of(w, (v as u128).min(mask(w))) })
            }
            X::Malloc => {
                let n = self.a(st, &args[0])?;
                if n > (1 << 32) { return Ok(Val::I(0)); }
                Ok(Val::I(st.mem.alloc(n, true)))
            }
            X::Calloc => {
                let n = self.a(st, &args[0])?.wrapping_mul(self.a(st, &args[1])?);
                if n > (1 << 32) { return Ok(Val::I(0)); }
                Ok(Val::I(st.mem.alloc(n, true)))
            }
            X::PosixMemalign => {
                let n = self.a(st, &args[2])?;
                let p = self.a(st, &args[0])?;
                let a = st.mem.alloc(n, true);
                self.store_scalar(st, p, 64, &Val::I(a))?;
                Ok(Val::I(0))
            }
            X::Realloc => {
                let p = self.a(st, &args[0])?;
                let n = self.a(st, &args[1])?;
                if n > (1 << 32) { return Ok(Val::I(0)); }
                let a = st.mem.alloc(n, true);
                if p != 0 {
                    let old = match st.mem.get(p) { Some(o) if o.base == p => o.data.len() as u64, _ => return Err(self.fault(st, "realloc", p, n)) };
                    let k = old.min(n);
                    let (d, s) = st.mem.bytes(p, k).unwrap();
                    st.mem.write_bytes(a, &d, &s);
                    st.mem.free(p);
                }
                Ok(Val::I(a))
            }
            X::Free => {
                let p = self.a(st, &args[0])?;
                if p != 0 && !st.mem.free(p) { return Err(self.fault(st, "free", p, 0)); }
                Ok(Val::I(0))
            }
            X::Bcmp | X::Memcmp => {
                let n = self.a(st, &args[2])?;
                let (p, q) = (self.a(st, &args[0])?, self.a(st, &args[1])?);
                if n == 0 { return Ok(Val::I(0)); }
                let (pd, ps) = match st.mem.bytes(p, n) { Some(x) => x, None => return Err(self.fault(st, "memcmp", p, n)) };
                let (qd, qs) = match st.mem.bytes(q, n) { Some(x) => x, None => return Err(self.fault(st, "memcmp", q, n)) };
                if ps.is_empty() && qs.is_empty() {
                    let c = pd.cmp(&qd) as i32;
                    return Ok(Val::I(c as u32 as u64));
                }
                let (z, m1, o) = (self.p.konst(32, 0), self.p.konst(32, u32::MAX as u128), self.p.konst(32, 1));
                let mut r = z;
                let by = |en: &mut Engine, d: &[u8], s: &[E], i: usize| if !s.is_empty() && s[i] != 0 { s[i] } else { en.p.konst(8, d[i] as u128) };
                if kind == X::Bcmp {
                    let mut c = self.p.konst(1, 1);
                    for i in 0..n as usize {
                        let (x, y) = (by(self, &pd, &ps, i), by(self, &qd, &qs, i));
                        let e = self.p.bin(Op::Eq, x, y);
                        c = self.p.bin(Op::And, c, e);
                    }
                    r = self.p.ite(c, z, o);
                } else {
                    for i in (0..n as usize).rev() {
                        let (x, y) = (by(self, &pd, &ps, i), by(self, &qd, &qs, i));
                        let e = self.p.bin(Op::Eq, x, y);
                        let l = self.p.bin(Op::Ult, x, y);
                        let d = self.p.ite(l, m1, o);
                        r = self.p.ite(e, r, d);
                    }
                }
                Ok(self.ve(r))
            }
            X::Strlen => { let p = self.a(st, &args[0])?; let s = self.cstr(st, p)?; Ok(Val::I(s.len() as u64)) }
            X::Memchr => {
                let (p, c, n) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])?);
                for i in 0..n {
                    let v = self.load_scalar(st, p + i, 8)?;
                    let k = self.conc(st, &v, "memchr")? as u64;
                    if k == c & 0xff { return Ok(Val::I(p + i)); }
                }
                Ok(Val::I(0))
            }
            X::Open => {
                let p = self.a(st, &args[0])?;
                let fl = self.a(st, &args[1])?;
                let name = self.cstr(st, p)?;
                if !st.files.contains_key(&name) {
                    if fl & 0x40 == 0 { self.set_errno(st, 2)?; return Ok(Val::I(u32::MAX as u64)); }
                    st.files.insert(name.clone(), FileData { d: vec![], s: vec![] });
                } else if fl & 0xc0 == 0xc0 { self.set_errno(st, 17)?; return Ok(Val::I(u32::MAX as u64));
                } else if fl & 0x200 != 0 { st.files.insert(name.clone(), FileData { d: vec![], s: vec![] }); }
                let fd = st.fds.keys().last().map(|x| x + 1).unwrap_or(3);
                st.fds.insert(fd, Fd { name, pos: 0, app: fl & 0x400 != 0 });
                Ok(Val::I(fd))
            }
            X::Read => {
                let (fd, p, n) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])?);
                Ok(Val::I(self.fd_read(st, fd, p, n, None)?))
            }
            X::Pread => {
                let (fd, p, n, o) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])?, self.a(st, &args[3])?);
                Ok(Val::I(self.fd_read(st, fd, p, n, Some(o))?))
            }
            X::Write => {
                let (fd, p, n) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])?);
                Ok(Val::I(self.fd_write(st, fd, p, n, None)?))
            }
            X::Pwrite => {
                let (fd, p, n, o) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])?, self.a(st, &args[3])?);
                Ok(Val::I(self.fd_write(st, fd, p, n, Some(o))?))
            }
            X::Iov(w) => {
                let (fd, v, c) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])? & 0xffff_ffff);
                let mut t = 0;
                for i in 0..c {
                    let (b, l) = (self.load_scalar(st, v + 16 * i, 64)?, self.load_scalar(st, v + 16 * i + 8, 64)?);
                    let (b, l) = (self.a(st, &b)?, self.a(st, &l)?);
                    if l == 0 { continue; }
                    let k = if w { self.fd_write(st, fd, b, l, None)? } else { self.fd_read(st, fd, b, l, None)? };
                    if k == u64::MAX { return Ok(Val::I(k)); }
                    t += k;
                    if k < l { break; }
                }
                Ok(Val::I(t))
            }
            X::Ftruncate => {
                let (fd, n) = (self.a(st, &args[0])?, self.a(st, &args[1])?);
                let name = match st.fds.get(&fd) { Some(f) => f.name.clone(), None => { self.set_errno(st, 9)?; return Ok(Val::I(u32::MAX as u64)); } };
                let f = st.files.get_mut(&name).unwrap();
                f.d.resize(n as usize, 0);
                if !f.s.is_empty() { f.s.resize(n as usize, 0); }
                Ok(Val::I(0))
            }
            X::Unlink => {
                let p = self.a(st, &args[0])?;
                let n = self.cstr(st, p)?;
                if st.fds.values().any(|f| f.name == n) { return Err(End::Inconclusive("unlink of an open file".into())); }
                if st.files.remove(&n).is_none() { self.set_errno(st, 2)?; return Ok(Val::I(u32::MAX as u64)); }
                Ok(Val::I(0))
            }
            X::Rename => {
                let (p, q) = (self.a(st, &args[0])?, self.a(st, &args[1])?);
                let (n, m) = (self.cstr(st, p)?, self.cstr(st, q)?);
                if st.fds.values().any(|f| f.name == n || f.name == m) { return Err(End::Inconclusive("rename of an open file".into())); }
                match st.files.remove(&n) { Some(f) => { st.files.insert(m, f); Ok(Val::I(0)) } None => { self.set_errno(st, 2)?; Ok(Val::I(u32::MAX as u64)) } }
            }
            X::Fcntl => { let fd = self.a(st, &args[0])?; if st.fds.contains_key(&fd) { Ok(Val::I(0)) } else { self.set_errno(st, 9)?; Ok(Val::I(u32::MAX as u64)) } }
            X::Close => { let fd = self.a(st, &args[0])?; st.fds.remove(&fd); Ok(Val::I(0)) }
            X::Lseek => {
                let (fd, off, wh) = (self.a(st, &args[0])?, self.a(st, &args[1])?, self.a(st, &args[2])?);
                let f = match st.fds.get_mut(&fd) { Some(f) => f, None => { self.set_errno(st, 9)?; return Ok(Val::I(u64::MAX)); } };
                let len = st.files[&f.name].d.len() as u64;
                let to = match wh & 0xff { 0 => off, 1 => f.pos.wrapping_add(off), _ => len.wrapping_add(off) };
                if (to as i64) < 0 { self.set_errno(st, 22)?; return Ok(Val::I(u64::MAX)); }
                f.pos = to;
                Ok(Val::I(to))
            }
            X::Fstat | X::Statx | X::Stat => {
                let sx_ = kind == X::Statx;
                let buf = self.a(st, &args[if sx_ { 4 } else { 1 }])?;
                let mut len = None;
                if sx_ { let p = self.a(st, &args[1])?; if p != 0 { let n = self.cstr(st, p)?; if !n.is_empty() { len = st.files.get(&n).map(|f| f.d.len() as u64); if len.is_none() { self.set_errno(st, 2)?; return Ok(Val::I(u32::MAX as u64)); } } } }
                if kind == X::Stat { let p = self.a(st, &args[0])?; let n = self.cstr(st, p)?; len = st.files.get(&n).map(|f| f.d.len() as u64); if len.is_none() { self.set_errno(st, 2)?; return Ok(Val::I(u32::MAX as u64)); } }
                if len.is_none() {
                    let fd = self.a(st, &args[0])?;
                    len = st.fds.get(&fd).map(|f| st.files[&f.name].d.len() as u64);
                }
                let len = match len { Some(l) => l, None => { self.set_errno(st, 9)?; return Ok(Val::I(u32::MAX as u64)); } };
                if sx_ {
                    st.mem.write_bytes(buf, &vec![0; 256], &[]);
                    self.store_scalar(st, buf, 32, &Val::I(0x7ff))?;
                    self.store_scalar(st, buf + 28, 16, &Val::I(0o100644))?;
                    self.store_scalar(st, buf + 40, 64, &Val::I(len))?;
                } else {
                    st.mem.write_bytes(buf, &vec![0; 144], &[]);
                    self.store_scalar(st, buf + 24, 32, &Val::I(0o100644))?;
                    self.store_scalar(st, buf + 48, 64, &Val::I(len))?;
                }
                Ok(Val::I(0))
            }
            X::Getrandom => {
                let (p, n) = (self.a(st, &args[0])?, self.a(st, &args[1])?);
                let mut v = vec![];
                for _ in 0..n { st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push((st.rnd >> 33) as u8); }
                if !st.mem.write_bytes(p, &v, &[]) { return Err(self.fault(st, "getrandom", p, n)); }
                Ok(Val::I(n))
            }
            X::Getenv | X::Zero => Ok(self.m.zero(rty)),
            X::One => Ok(Val::I(1)),
            X::Minus1 => { self.set_errno(st, 38)?; let w = match self.m.tys[rty as usize] { Ty::Ptr => return Ok(Val::I(0)), _ => self.m.bits(rty) }; Ok(Val::of(w, mask(w))) }
            X::Errno => Ok(Val::I(self.errno_addr())),
            X::KeyCreate => { let p = self.a(st, &args[0])?; self.store_scalar(st, p, 32, &Val::I(1))?; Ok(Val::I(0)) }
            X::ClockGettime => { let p = self.a(st, &args[1])?; self.store_scalar(st, p, 64, &Val::I(1_700_000_000))?; self.store_scalar(st, p + 8, 64, &Val::I(0))?; Ok(Val::I(0)) }
            X::Abort => Err(End::Crash("abort".into())),
            // ---- hypercalls ----
            X::SxByte => {
                let i = st.nvars;
                if i as usize >= MAXVARS { return Err(End::Inconclusive("too many symbolic bytes".into())); }
                st.nvars += 1;
                if st.model.len() < st.nvars as usize { st.model.resize(st.nvars as usize, 0); }
                let e = self.p.var(i);
                if self.subset_fixed_pub(st, e) { let k = self.eval(st, e); return Ok(Val::I(k as u64)); }
                Ok(Val::S(e))
            }
            X::SxAssume => {
                match &args[0] {
                    Val::S(e) => {
                        let mut e = *e;
                        let w = self.p.w(e);
                        if w > 1 { let z = self.p.konst(w, 0); let q = self.p.bin(Op::Eq, e, z); e = self.p.not(q); }
                        if let Some(k) = self.p.is_const(e) { return if k == 1 { Ok(Val::I(0)) } else { Err(End::Assume) }; }
                        if self.eval(st, e) == 1 { self.add_pc(st, e); return Ok(Val::I(0)); }
                        match self.s.check(&mut self.p, &st.pc, e, &st.model) {
                            crate::z3::Res::Sat(m) => { st.model = m; self.add_pc(st, e); Ok(Val::I(0)) }
                            crate::z3::Res::Unsat => Err(End::Assume),
                            crate::z3::Res::Unknown => Err(End::Inconclusive("solver returned unknown".into())),
                        }
                    }
                    v => if v.conc().unwrap() & 1 == 1 { Ok(Val::I(0)) } else { Err(End::Assume) },
                }
            }
            X::SxFail => { let m = self.rstr(st, &args[0], &args[1])?; Err(End::Fail(m)) }
            X::SxReject => { let m = self.rstr(st, &args[0], &args[1])?; Err(End::Reject(m)) }
            X::SxWitness => {
                let m = self.rstr(st, &args[0], &args[1])?;
                let n = self.wit.len() as u32;
                let i = *self.wit.entry(m).or_insert(n);
                st.wit |= 1 << i;
                Ok(Val::I(0))
            }
            X::SxObserve => {
                let (p, n) = (self.a(st, &args[0])?, self.a(st, &args[1])?);
                let (d, s) = match st.mem.bytes(p, n) { Some(x) => x, None => return Err(self.fault(st, "observe", p, n)) };
                st.obs.push(FileData { d, s });
                Ok(Val::I(0))
            }
            X::SxPut => {
                let name = self.rstr(st, &args[0], &args[1])?;
                let (p, n) = (self.a(st, &args[2])?, self.a(st, &args[3])?);
                let (d, s) = match st.mem.bytes(p, n) { Some(x) => x, None => return Err(self.fault(st, "file_put", p, n)) };
                st.files.insert(name, FileData { d, s });
                Ok(Val::I(0))
            }
            X::SxGet => {
                let name = self.rstr(st, &args[0], &args[1])?;
                let (p, n) = (self.a(st, &args[2])?, self.a(st, &args[3])?);
                let f = match st.files.get(&name) { Some(f) => f.clone(), None => return Ok(Val::I(u64::MAX)) };
                let k = (f.d.len() as u64).min(n) as usize;
                let s = if f.s.is_empty() { vec![] } else { f.s[..k].to_vec() };
                if !st.mem.write_bytes(p, &f.d[..k], &s) { return Err(self.fault(st, "file_get", p, n)); }
                Ok(Val::I(f.d.len() as u64))
            }
            X::SxParam => { let i = self.a(st, &args[0])? as usize; Ok(Val::I(*self.o.params.get(i).unwrap_or(&0))) }
            X::SxPanicOk => { st.panic_ok = self.a(st, &args[0])? & 1 == 1; Ok(Val::I(0)) }
            X::SxConc => { let v = self.conc(st, &args[0], "case-split")?; Ok(Val::I(v as u64)) }
            X::SxIte => {
                // u64 __sx_ite(bool c, u64 a, u64 b): a non-forking conditional
                match &args[0] {
                    Val::S(e) => {
                        let mut e = *e;
                        let w = self.p.w(e);
                        if w > 1 { e = self.p.extract(e, 0, 0); }
                        let (a, b) = (self.e(&args[1], 64), self.e(&args[2], 64));
                        let r = self.p.ite(e, a, b);
                        Ok(self.ve(r))
                    }
                    v => Ok(if v.conc().unwrap() & 1 == 1 { args[1].clone() } else { args[2].clone() }),
                }
            }
            X::SxArgs => {
                // what the process's start-up code stores for std::env::args()
                let (n, p) = (self.a(st, &args[0])?, self.a(st, &args[1])?);
                for (g, v) in [("3sys4args4unix3imp4ARGC", n), ("3sys4args4unix3imp4ARGV", p)] {
                    let a = self.m.globals.iter().find(|x| x.name.contains(g)).map(|x| x.addr);
                    match a { Some(a) => self.store_scalar(st, a, 64, &Val::I(v))?, None => return Err(End::Inconclusive(format!("no global {}", g))) }
                }
                Ok(Val::I(0))
            }
            X::SxNote => { let m = self.rstr(st, &args[0], &args[1])?; if self.o.trace { eprintln!("note: {}", m); } Ok(Val::I(0)) }
            _ => {
                let n = self.m.exts[x as usize].clone();
                let _ = concat_le;
                Err(End::Inconclusive(format!("call of unmodelled external {}", n)))
            }
        }
    }
    fn cur_ext(&self, st: &State) -> usize {
        let f = &st.cur.func;
        match &f.blocks[st.cur.blk as usize].insts[st.cur.ip as usize] { Inst::Call { callee: Callee::Ext(x), .. } => *x as usize, _ => 0 }
    }
    pub fn subset_fixed_pub(&self, st: &State, e: E) -> bool {
        let vs = &self.p.vsets[self.p.vars(e) as usize];
        (0..vs.len()).all(|i| vs[i] & !st.fixed[i] == 0)
    }
}
