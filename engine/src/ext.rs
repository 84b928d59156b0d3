//! Intrinsics, libc surface, harness API and function hooks.
pub static TIER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::Res;
use std::rc::Rc;

type X<T> = Result<T, End>;
fn flt<T>(r: Result<T, Fault>) -> X<T> { r.map_err(|f| End::Viol(format!("invalid memory access {:#x}", f.0))) }
fn bad<T>(s: impl Into<String>) -> X<T> { Err(End::Incon(s.into())) }
const ERRNO: u64 = GLOB + 16;

impl Worker {
    fn cbytes(&mut self, st: &mut State, p: &Val, n: &Val) -> X<Vec<u8>> {
        let p = self.conc(st, p)?; let n = self.conc(st, n)?;
        let (mut d, s) = flt(st.mem.read_range(p, n))?;
        if let Some(s) = s { for (i, e) in s.iter().enumerate() { if *e != 0 { d[i] = self.concretize(st, *e)? as u8; } } }
        Ok(d)
    }
    fn cstr(&mut self, st: &mut State, p: &Val) -> X<Vec<u8>> {
        let a = self.conc(st, p)?;
        let mut v = vec![];
        loop {
            let (c, e) = flt(st.mem.byte(a + v.len() as u64))?;
            let c = if e != 0 { self.concretize(st, e)? as u8 } else { c };
            if c == 0 { return Ok(v); }
            v.push(c);
        }
    }
    fn bytes_e(&mut self, st: &State, p: u64, n: u64) -> X<Vec<E>> {
        let (d, s) = flt(st.mem.read_range(p, n))?;
        Ok(match s { Some(s) => d.iter().zip(s).map(|(c, e)| if e != 0 { e } else { self.x.cnst(*c as u128, 8) }).collect(), None => d.iter().map(|c| self.x.cnst(*c as u128, 8)).collect() })
    }
    fn eq_range(&mut self, st: &State, p: u64, q: u64, n: u64) -> X<E> {
        let a = flt(st.mem.read_range(p, n))?;
        let b = flt(st.mem.read_range(q, n))?;
        if a.1.is_none() && b.1.is_none() { return Ok(self.x.cnst((a.0 == b.0) as u128, 1)); }
        let mut acc = self.x.tt();
        let ex = |s: &mut Worker, r: &(Vec<u8>, Option<Vec<E>>), i: usize| match &r.1 { Some(v) if v[i] != 0 => v[i], _ => s.x.cnst(r.0[i] as u128, 8) };
        // fail fast on concrete mismatches
        for i in 0..n as usize { if a.0[i] != b.0[i] && a.1.as_ref().map_or(true, |v| v[i] == 0) && b.1.as_ref().map_or(true, |v| v[i] == 0) { return Ok(self.x.ff()); } }
        for i in 0..n as usize {
            let (x, y) = (ex(self, &a, i), ex(self, &b, i));
            if x == y { continue; }
            let c = self.x.bin(Op::Eq, x, y);
            acc = self.x.bin(Op::And, acc, c);
            if self.x.as_const(acc) == Some(0) { return Ok(acc); }
        }
        Ok(acc)
    }
    fn nz(&mut self, v: &Val, w: u32) -> E { let e = self.to_e(v, w); let z = self.x.cnst(0, w); let q = self.x.bin(Op::Eq, e, z); self.x.not(q) }

    fn panic_loc(&mut self, st: &State, args: &[Val]) -> String {
        for v in args.iter().rev() {
            if let Val::I(p) = v {
                let r = (|| -> Option<String> {
                    let f = st.mem.read(*p, 8).ok()??; let n = st.mem.read(*p + 8, 8).ok()??; let l = st.mem.read(*p + 16, 4).ok()??;
                    if n == 0 || n > 300 || l == 0 || l > 1_000_000 { return None; }
                    let (d, s) = st.mem.read_range(f as u64, n as u64).ok()?;
                    if s.is_some() { return None; }
                    let s = String::from_utf8(d).ok()?;
                    if !s.ends_with(".rs") { return None; }
                    Some(format!("{s}:{l}"))
                })();
                if let Some(r) = r { return r; }
            }
        }
        "unknown location".into()
    }
    pub fn hook(&mut self, st: &mut State, h: Hook, id: u32, args: &[Val]) -> X<Option<Val>> {
        match h {
            Hook::PanicFmt => { let l = self.panic_loc(st, args); Err(if st.allow_panic == 1 { End::Panic(l) } else { End::Viol(format!("panic at {l}")) }) }
            Hook::Abort => Err(End::Viol(format!("abort in {}", self.m.fns[id as usize].name))),
            Hook::Alloc | Hook::AllocZ => {
                let s = self.conc(st, &args[0])?;
                let a = match args.get(1) { Some(a) => self.conc(st, a)?, None => 16 }; // a constant alignment may have been propagated away
                if s > 1 << 28 { return Ok(Some(Val::I(0))); }
                Ok(Some(Val::I(st.mem.alloc(s, a))))
            }
            Hook::Dealloc => Ok(None),
            Hook::Realloc => {
                let (p, o, a, n) = (self.conc(st, &args[0])?, self.conc(st, &args[1])?, self.conc(st, &args[2])?, self.conc(st, &args[3])?);
                self.realloc(st, p, o, a, n).map(|v| Some(Val::I(v)))
            }
            Hook::Memchr => {
                // core::slice::memchr::memchr_{aligned,naive}(x: u8, text: &[u8]) -> Option<usize>: same contract, evaluated bytewise
                let p = self.conc(st, &args[1])?; let n = self.conc(st, &args[2])?;
                let bs = self.bytes_e(st, p, n)?;
                let x = self.to_e(&args[0], 8);
                for (i, b) in bs.iter().enumerate() {
                    let c = self.x.bin(Op::Eq, *b, x);
                    if self.branch(st, c)? { return Ok(Some(Val::A(Rc::new(vec![Val::I(1), Val::I(i as u64)])))); }
                }
                Ok(Some(Val::A(Rc::new(vec![Val::I(0), Val::I(n)]))))
            }
        }
    }
    fn realloc(&mut self, st: &mut State, p: u64, old: u64, al: u64, n: u64) -> X<u64> {
        if n > 1 << 28 { return Ok(0); }
        if p + old.max(1) + 16 == st.mem.heap_top { st.mem.heap_top = p + n.max(1) + 16; flt(st.mem.write(p - 16, 8, n as u128))?; return Ok(p); }
        let (d, s) = flt(st.mem.read_range(p, old.min(n)))?;
        let q = st.mem.alloc(n, al);
        flt(st.mem.write_range(q, &d, s.as_deref()))?;
        Ok(q)
    }

    pub fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> X<Option<Val>> {
        let b = n.strip_prefix("llvm.").unwrap_or(n);
        if b.starts_with("memcpy.") || b.starts_with("memmove.") {
            let len = self.conc(st, &a[2])?;
            if len == 0 { return Ok(None); }
            let (d, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
            let (v, sy) = flt(st.mem.read_range(s, len))?;
            flt(st.mem.write_range(d, &v, sy.as_deref()))?;
            return Ok(None);
        }
        if b.starts_with("memset.") {
            let len = self.conc(st, &a[2])?;
            if len == 0 { return Ok(None); }
            let d = self.conc(st, &a[0])?;
            match &a[1] { Val::I(c) => flt(st.mem.fill(d, len, *c as u8, 0))?, Val::S(e) => flt(st.mem.fill(d, len, 0, *e))?, _ => return bad("memset") }
            return Ok(None);
        }
        if let Ty::Vec(_, et) = ret {
            // lane-wise
            let lanes = ret.nfields();
            let mut o = vec![];
            for i in 0..lanes {
                let al: Vec<Val> = a.iter().map(|v| match v { Val::A(l) => l[i].clone(), x => x.clone() }).collect();
                let tl: Vec<Ty> = tys.iter().map(|t| match t { Ty::Vec(_, e) => (**e).clone(), t => t.clone() }).collect();
                match self.intrinsic(st, n, &al, &tl, et)? { Some(v) => o.push(v), None => return bad(format!("vector intrinsic {n}")) }
            }
            return Ok(Some(Val::A(Rc::new(o))));
        }
        let w = tys.first().map_or(0, |t| t.bits());
        let head: String = b.split('.').take_while(|p| !(p.len() > 1 && (p.starts_with('i') || p.starts_with('v') || p.starts_with('p') || p.starts_with('f')) && p[1..].bytes().all(|c| c.is_ascii_digit() || c == b'i'))).collect::<Vec<_>>().join(".");
        let cu = |v: &Val| match v { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None };
        let allc = a.iter().all(|v| cu(v).is_some());
        let mkw = |v: u128, w: u32| if w <= 64 { Val::I((v & maskw(w)) as u64) } else { Val::W(Rc::new(v & maskw(w))) };
        Ok(Some(match head.as_str() {
            "expect" | "expect.with.probability" => a[0].clone(),
            "is.constant" => Val::I(0),
            "objectsize" => Val::I(u64::MAX),
            "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" => a[0].clone(),
            "ptrmask" => { let x = self.conc(st, &a[0])?; let m = self.conc(st, &a[1])?; Val::I(x & m) }
            "trap" | "ubsantrap" | "debugtrap" => return Err(End::Viol("trap".into())),
            "umax" | "umin" | "smax" | "smin" => {
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let c = match head.as_str() { "umax" => self.x.bin(Op::Ult, y, x), "umin" => self.x.bin(Op::Ult, x, y), "smax" => self.x.bin(Op::Slt, y, x), _ => self.x.bin(Op::Slt, x, y) };
                let r = self.x.ite(c, x, y); self.of_e(r)
            }
            "abs" => { let x = self.to_e(&a[0], w); let s = self.x.extract(x, w - 1, 1); let z = self.x.cnst(0, w); let n = self.x.bin(Op::Sub, z, x); let r = self.x.ite(s, n, x); self.of_e(r) }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let op = if head == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.x.bin(op, x, y); let gt = self.x.bin(op, y, x);
                let (m1, z, p1) = (self.x.cnst(maskw(rw), rw), self.x.cnst(0, rw), self.x.cnst(1, rw));
                let i = self.x.ite(gt, p1, z); let r = self.x.ite(lt, m1, i); self.of_e(r)
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let r = match head.as_str() {
                    "uadd.sat" => { let s = self.x.bin(Op::Add, x, y); let c = self.x.bin(Op::Ult, s, x); let m = self.x.cnst(maskw(w), w); self.x.ite(c, m, s) }
                    "usub.sat" => { let s = self.x.bin(Op::Sub, x, y); let c = self.x.bin(Op::Ult, x, y); let m = self.x.cnst(0, w); self.x.ite(c, m, s) }
                    _ => return bad(format!("intrinsic {n}")),
                };
                self.of_e(r)
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let signed = head.starts_with('s');
                let k = &head[1..4];
                if allc && w <= 64 {
                    let (x, y) = (cu(&a[0]).unwrap(), cu(&a[1]).unwrap());
                    let (v, o) = if signed { let (x, y) = (sx(x, w), sx(y, w)); let r = match k { "add" => x + y, "sub" => x - y, _ => x * y }; (r as u128 & maskw(w), sx(r as u128 & maskw(w), w) != r) }
                        else { match k { "add" => ((x + y) & maskw(w), x + y > maskw(w)), "sub" => (x.wrapping_sub(y) & maskw(w), x < y), _ => ((x * y) & maskw(w), x * y > maskw(w)) } };
                    return Ok(Some(Val::A(Rc::new(vec![mkw(v, w), Val::I(o as u64)]))));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let op = match k { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let r = self.x.bin(op, x, y);
                let o = if !signed && k == "add" { self.x.bin(Op::Ult, r, x) } else if !signed && k == "sub" { self.x.bin(Op::Ult, x, y) } else {
                    let w2 = if k == "mul" { 2 * w } else { w + 1 };
                    if w2 > 128 { return bad("wide overflow arithmetic"); }
                    let (p, q) = if signed { (self.x.sext(x, w2), self.x.sext(y, w2)) } else { (self.x.zext(x, w2), self.x.zext(y, w2)) };
                    let wide = self.x.bin(op, p, q);
                    let back = if signed { self.x.sext(r, w2) } else { self.x.zext(r, w2) };
                    let e = self.x.bin(Op::Eq, wide, back);
                    self.x.not(e)
                };
                let (r, o) = (self.of_e(r), self.of_e(o));
                Val::A(Rc::new(vec![r, o]))
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" if allc => {
                let x = cu(&a[0]).unwrap();
                mkw(match head.as_str() {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                    "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                    "bswap" => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                }, w)
            }
            "ctpop" => { let x = self.to_e(&a[0], w); let mut acc = self.x.cnst(0, w); for i in 0..w { let b = self.x.extract(x, i, 1); let z = self.x.zext(b, w); acc = self.x.bin(Op::Add, acc, z); } self.of_e(acc) }
            "ctlz" => { let x = self.to_e(&a[0], w); let mut acc = self.x.cnst(w as u128, w); for i in 0..w { let b = self.x.extract(x, i, 1); let k = self.x.cnst((w - 1 - i) as u128, w); acc = self.x.ite(b, k, acc); } self.of_e(acc) }
            "cttz" => { let x = self.to_e(&a[0], w); let mut acc = self.x.cnst(w as u128, w); for i in (0..w).rev() { let b = self.x.extract(x, i, 1); let k = self.x.cnst(i as u128, w); acc = self.x.ite(b, k, acc); } self.of_e(acc) }
            "bswap" => { let x = self.to_e(&a[0], w); let mut acc = self.x.extract(x, 0, 8); for i in 1..w / 8 { let b = self.x.extract(x, 8 * i, 8); acc = self.x.concat(acc, b); } self.of_e(acc) }
            "bitreverse" => { let x = self.to_e(&a[0], w); let mut acc = self.x.extract(x, 0, 1); for i in 1..w { let b = self.x.extract(x, i, 1); acc = self.x.concat(acc, b); } self.of_e(acc) }
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2])? as u32 % w;
                if s == 0 { return Ok(Some(if head == "fshl" { a[0].clone() } else { a[1].clone() })); }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let k = if head == "fshl" { s } else { w - s };
                // high part: x << k | y >> (w-k)
                let h = self.x.extract(x, 0, w - k); let l = self.x.extract(y, w - k, k);
                let r = self.x.concat(h, l); self.of_e(r)
            }
            "load.relative" => {
                let p = self.conc(st, &a[0])?; let o = self.conc(st, &a[1])?;
                let Val::I(v) = self.load(st, &Ty::Int(32), p.wrapping_add(o))? else { return bad("load.relative") };
                Val::I(p.wrapping_add(sxt(v, 32) as u64))
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" => {
                let Val::A(l) = &a[0] else { return bad("reduce") };
                let w = ret.bits();
                let op = match head.as_str() { "vector.reduce.or" => Op::Or, "vector.reduce.and" => Op::And, _ => Op::Add };
                let mut acc = self.to_e(&l[0], w);
                for v in &l[1..] { let e = self.to_e(v, w); acc = self.x.bin(op, acc, e); }
                self.of_e(acc)
            }
            "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" | "nearbyint" | "sqrt" => {
                let x = self.conc(st, &a[0])?;
                let f = |d: f64| match head.as_str() { "fabs" => d.abs(), "floor" => d.floor(), "ceil" => d.ceil(), "trunc" => d.trunc(), "round" => d.round(), "sqrt" => d.sqrt(), _ => d.round_ties_even() };
                Val::I(if w == 32 { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 } else { f(f64::from_bits(x)).to_bits() })
            }
            "fma" | "fmuladd" | "copysign" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "powi" => {
                let x = f64::from_bits(self.conc(st, &a[0])?); let y = f64::from_bits(self.conc(st, &a[1])?);
                if w != 64 { return bad(format!("intrinsic {n}")); }
                Val::I(match head.as_str() { "copysign" => x.copysign(y), "minnum" | "minimumnum" => x.min(y), "maxnum" | "maximumnum" => x.max(y), "fma" | "fmuladd" => x.mul_add(y, f64::from_bits(self.conc(st, &a[2])?)), _ => return bad("powi") }.to_bits())
            }
            "fptosi.sat" | "fptoui.sat" => {
                let x = self.conc(st, &a[0])?;
                let d = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let rw = ret.bits();
                if rw > 64 { return bad("fpto*.sat"); }
                Val::I(if head == "fptosi.sat" { let m = (1i128 << (rw - 1)) as f64; let v = if d.is_nan() { 0 } else if d >= m { (1i128 << (rw - 1)) - 1 } else if d <= -m { -(1i128 << (rw - 1)) } else { d as i128 }; trunc(v as u64, rw) }
                    else { let v = if d.is_nan() || d <= 0.0 { 0u128 } else if d >= (1u128 << rw) as f64 { maskw(rw) } else { d as u128 }; v as u64 })
            }
            _ => return bad(format!("intrinsic {n}")),
        }))
    }

    pub fn external(&mut self, st: &mut State, n: &str, a: &[Val], _tys: &[Ty], _ret: &Ty) -> X<Option<Val>> {
        let i = |x: u64| Ok(Some(Val::I(x)));
        match n {
            // ---- harness API
            "vf_var" => {
                let p = self.conc(st, &a[0])?;
                let mut m: Mask = [0; 4];
                for k in 0..4 { m[k] = flt(st.mem.read(p + 8 * k as u64, 8))?.unwrap_or(0) as u64; }
                if m == [0; 4] { return bad("empty domain"); }
                let ix = st.path.nvars;
                st.path.nvars += 1;
                if ix >= 1000 { return bad("too many variables"); }
                Rc::make_mut(&mut st.path.doms).push(m);
                Rc::make_mut(&mut st.path.inv).push(false);
                if st.path.model.len() <= ix {
                    let f = (0..256).find(|k| m[k >> 6] >> (k & 63) & 1 == 1).unwrap() as u8;
                    Rc::make_mut(&mut st.path.model).push(f);
                }
                let e = self.x.var(ix as u32);
                let c: u32 = m.iter().map(|x| x.count_ones()).sum();
                if c == 1 { let f = (0..256).find(|k| m[k >> 6] >> (k & 63) & 1 == 1).unwrap() as u64; return i(f); }
                Ok(Some(Val::S(e)))
            }
            "vf_is_symbolic" => i(1),
            "vf_concretize" => { let v = self.conc(st, &a[0])?; i(v) }
            "vf_assume" => {
                let c = self.nz(&a[0], 32);
                if self.branch(st, c)? { Ok(None) } else { Err(End::Assumed) }
            }
            "vf_check" => {
                let c = self.nz(&a[0], 32);
                let replaying = st.cur < st.dec.len();
                let label = { let p = self.conc(st, &a[1])?; let n = self.conc(st, &a[2])?; String::from_utf8_lossy(&flt(st.mem.read_range(p, n))?.0).into_owned() };
                if replaying { return Ok(None); }
                self.st.checks += 1;
                let s = self.dsimp_pub(&st.path, c);
                match self.x.as_const(c) {
                    Some(1) => { self.st.checks_const += 1; return Ok(None); }
                    Some(_) => return Err(End::Viol(label)),
                    None => {}
                }
                let _ = s;
                // decided by z3 over path condition and negated assertion
                self.st.checks_z3 += 1;
                let neg = self.x.not(c);
                let mut cons: Vec<E> = (*st.path.multi).clone();
                cons.push(neg);
                let mut vars = std::collections::BTreeSet::new();
                for e in &cons { for v in self.x.vars(*e) { vars.insert(v); } }
                let doms: Vec<(u16, Mask)> = vars.iter().map(|v| (*v, st.path.doms[*v as usize])).collect();
                match self.z.solve(&mut self.x, &cons, &doms) {
                    Res::Unsat => Ok(None),
                    Res::Sat(m) => { let mm = Rc::make_mut(&mut st.path.model); for (v, k) in m { mm[v as usize] = k; } Err(End::Viol(label)) }
                    Res::Unknown => bad("solver returned unknown on an assertion"),
                }
            }
            "vf_fail" => { let l = self.cbytes(st, &a[0], &a[1])?; Err(End::Viol(String::from_utf8_lossy(&l).into_owned())) }
            "vf_inconclusive" => { let l = self.cbytes(st, &a[0], &a[1])?; Err(End::Incon(format!("harness: {}", String::from_utf8_lossy(&l)))) }
            "vf_reach" => { if st.cur >= st.dec.len() { let l = self.cbytes(st, &a[0], &a[1])?; *self.reach.entry(String::from_utf8_lossy(&l).into_owned()).or_insert(0) += 1; } Ok(None) }
            "vf_emit" => {
                let p = self.conc(st, &a[0])?; let n = self.conc(st, &a[1])?;
                let (d, s) = flt(st.mem.read_range(p, n))?;
                st.emits = Rc::new(EmitL::Cons(d, s, st.emits.clone()));
                Ok(None)
            }
            "vf_bytes_eq" => {
                let (p, n, q, k) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                if n != k { return i(0); }
                if n == 0 { return i(1); }
                let e = self.eq_range(st, p, q, n)?;
                let z = self.x.zext(e, 32);
                Ok(Some(self.of_e(z)))
            }
            "vf_allow_panic" => { st.allow_panic = self.conc(st, &a[0])? as u32; Ok(None) }
            "vf_file" => {
                let name = self.cbytes(st, &a[0], &a[1])?;
                let p = self.conc(st, &a[2])?; let n = self.conc(st, &a[3])?;
                let (d, s) = if n == 0 { (vec![], None) } else { flt(st.mem.read_range(p, n))? };
                let f = VFile { name: name.clone(), d: Rc::new(d), s: s.map(Rc::new) };
                let v = Rc::make_mut(&mut st.vfs);
                if let Some(x) = v.files.iter_mut().find(|x| x.name == name) { *x = f; } else { v.files.push(f); }
                Ok(None)
            }
            "vf_env" => { let k = self.cbytes(st, &a[0], &a[1])?; let val = self.cbytes(st, &a[2], &a[3])?; Rc::make_mut(&mut st.vfs).env.push((k, val)); Ok(None) }
            "vf_tier" => Ok(Some(Val::I(TIER.load(std::sync::atomic::Ordering::Relaxed) as u64))),
            "vf_debug" => { if std::env::var("VF_DEBUG").is_ok() { let p = self.conc(st, &a[0])?; let n = self.conc(st, &a[1])?; let (d, s) = flt(st.mem.read_range(p, n))?; let mut o = String::new(); for (k, c) in d.iter().enumerate() { match &s { Some(s) if s[k] != 0 => o.push_str(&format!("⟨{}⟩", self.x.eval(s[k], &st.path.model) as u8 as char)), _ => o.push(*c as char) } } eprintln!("DBG {o}"); } Ok(None) }
            // ---- memory
            "malloc" => { let s = self.conc(st, &a[0])?; if s > 1 << 28 { return i(0); } i(st.mem.alloc(s, 16)) }
            "calloc" => { let s = self.conc(st, &a[0])?.saturating_mul(self.conc(st, &a[1])?); if s > 1 << 28 { return i(0); } i(st.mem.alloc(s, 16)) }
            "free" => Ok(None),
            "realloc" => { let p = self.conc(st, &a[0])?; let s = self.conc(st, &a[1])?; if p == 0 { return i(st.mem.alloc(s, 16)); } let o = st.mem.size_of(p); let r = self.realloc(st, p, o, 16, s)?; i(r) }
            "posix_memalign" => { let (o, al, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?); let p = st.mem.alloc(s, al); flt(st.mem.write(o, 8, p as u128))?; i(0) }
            "memcmp" | "bcmp" => {
                let len = self.conc(st, &a[2])?;
                if len == 0 { return i(0); }
                let (p, q) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                if n == "bcmp" {
                    let e = self.eq_range(st, p, q, len)?;
                    let z = self.x.cnst(0, 32); let o = self.x.cnst(1, 32);
                    let r = self.x.ite(e, z, o);
                    return Ok(Some(self.of_e(r)));
                }
                let (x, y) = (self.bytes_e(st, p, len)?, self.bytes_e(st, q, len)?);
                let mut acc = self.x.cnst(0, 32);
                let (m1, p1) = (self.x.cnst(0xffff_ffff, 32), self.x.cnst(1, 32));
                for k in (0..len as usize).rev() {
                    let eq = self.x.bin(Op::Eq, x[k], y[k]); let lt = self.x.bin(Op::Ult, x[k], y[k]);
                    let d = self.x.ite(lt, m1, p1);
                    acc = self.x.ite(eq, acc, d);
                }
                Ok(Some(self.of_e(acc)))
            }
            "memcpy" | "memmove" => { self.intrinsic(st, "llvm.memcpy.p0", a, _tys, &Ty::Void)?; Ok(Some(a[0].clone())) }
            "memset" => { self.intrinsic(st, "llvm.memset.p0", a, _tys, &Ty::Void)?; Ok(Some(a[0].clone())) }
            "strlen" => { let v = self.cstr(st, &a[0])?; i(v.len() as u64) }
            "memchr" => {
                let p = self.conc(st, &a[0])?; let len = self.conc(st, &a[2])?;
                let c32 = self.to_e(&a[1], 32); let c = self.x.extract(c32, 0, 8);
                for (k, b) in self.bytes_e(st, p, len)?.into_iter().enumerate() { let e = self.x.bin(Op::Eq, b, c); if self.branch(st, e)? { return i(p + k as u64); } }
                i(0)
            }
            "__errno_location" => i(ERRNO),
            "abort" | "_exit" | "exit" => Err(End::Viol(format!("{n} called"))),
            // ---- environment
            "getenv" => {
                let k = self.cstr(st, &a[0])?;
                match st.vfs.env.iter().find(|x| x.0 == k) {
                    Some((_, v)) => { let v = v.clone(); let p = st.mem.alloc(v.len() as u64 + 1, 1); flt(st.mem.write_range(p, &v, None))?; flt(st.mem.write(p + v.len() as u64, 1, 0))?; i(p) }
                    None => i(0),
                }
            }
            "getcwd" => { let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?); if n < 5 { flt(st.mem.write(ERRNO, 4, 34))?; return i(0); } flt(st.mem.write_range(p, b"/vfs\0", None))?; i(p) }
            "open64" | "open" => {
                let k = self.cstr(st, &a[0])?;
                match self.vlookup(st, &k) { Some(f) => { let v = Rc::make_mut(&mut st.vfs); v.fds.push(Fd { file: f, pos: 0, open: true }); i(v.fds.len() as u64 + 9) } None => { flt(st.mem.write(ERRNO, 4, 2))?; i(0xffff_ffff) } }
            }
            "close" => { i(0) }
            "read" => {
                let fd = self.conc(st, &a[0])? as usize; let (p, n) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let Some(f) = fd.checked_sub(10).and_then(|x| st.vfs.fds.get(x)).cloned() else { flt(st.mem.write(ERRNO, 4, 9))?; return i(u64::MAX) };
                let file = st.vfs.files[f.file].clone();
                let s = f.pos as usize; let e = (s + n as usize).min(file.d.len());
                if e > s { flt(st.mem.write_range(p, &file.d[s..e], file.s.as_ref().map(|v| &v[s..e])))?; }
                Rc::make_mut(&mut st.vfs).fds[fd - 10].pos = e as u64;
                i((e - s) as u64)
            }
            "lseek64" | "lseek" => {
                let fd = self.conc(st, &a[0])? as usize; let off = self.conc(st, &a[1])?; let wh = self.conc(st, &a[2])?;
                let v = Rc::make_mut(&mut st.vfs);
                let len = v.files[v.fds[fd - 10].file].d.len() as u64;
                let f = &mut v.fds[fd - 10];
                f.pos = match wh { 0 => off, 1 => f.pos.wrapping_add(off), _ => len.wrapping_add(off) };
                i(f.pos)
            }
            "fstat64" | "fstat" => { let fd = self.conc(st, &a[0])? as usize; let b = self.conc(st, &a[1])?; let f = st.vfs.fds[fd - 10].file; let len = st.vfs.files[f].d.len() as u64; self.fill_stat(st, b, len, false)?; i(0) }
            "stat64" | "stat" | "lstat64" => {
                let k = self.cstr(st, &a[0])?; let b = self.conc(st, &a[1])?;
                if let Some(f) = self.vlookup(st, &k) { let len = st.vfs.files[f].d.len() as u64; self.fill_stat(st, b, len, false)?; i(0) }
                else if self.visdir(st, &k) { self.fill_stat(st, b, 0, true)?; i(0) }
                else { flt(st.mem.write(ERRNO, 4, 2))?; i(0xffff_ffff) }
            }
            "statx" => {
                // std probes for the system call with null pointers
                if self.conc(st, &a[1])? == 0 { flt(st.mem.write(ERRNO, 4, 14))?; return i(0xffff_ffff) }
                let k = self.cstr(st, &a[1])?; let b = self.conc(st, &a[4])?;
                let fd = self.conc(st, &a[0])? as u32 as usize;
                let r = if k.is_empty() && fd >= 10 && fd - 10 < st.vfs.fds.len() { Some((st.vfs.files[st.vfs.fds[fd - 10].file].d.len() as u64, false)) }
                    else if let Some(f) = self.vlookup(st, &k) { Some((st.vfs.files[f].d.len() as u64, false)) } else if self.visdir(st, &k) { Some((0, true)) } else { None };
                match r { None => { flt(st.mem.write(ERRNO, 4, 2))?; i(0xffff_ffff) } Some((len, dir)) => {
                    flt(st.mem.fill(b, 256, 0, 0))?;
                    flt(st.mem.write(b, 4, 0xfff))?; flt(st.mem.write(b + 4, 4, 4096))?; flt(st.mem.write(b + 16, 4, 1))?;
                    flt(st.mem.write(b + 28, 2, if dir { 0o40755 } else { 0o100644 }))?; flt(st.mem.write(b + 40, 8, len as u128))?;
                    i(0) } }
            }
            "realpath" => {
                let k = self.cstr(st, &a[0])?;
                let k = norm(&k);
                if self.vlookup(st, &k).is_some() || self.visdir(st, &k) {
                    let mut o = self.conc(st, &a[1])?;
                    if o == 0 { o = st.mem.alloc(k.len() as u64 + 1, 1); }
                    flt(st.mem.write_range(o, &k, None))?; flt(st.mem.write(o + k.len() as u64, 1, 0))?;
                    i(o)
                } else { flt(st.mem.write(ERRNO, 4, 2))?; i(0) }
            }
            "readlink" => { flt(st.mem.write(ERRNO, 4, 22))?; i(u64::MAX) }
            "write" | "writev" => i(self.conc(st, &a[2])?),
            "getrandom" => { let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?); flt(st.mem.fill(p, n, 7, 0))?; i(n) }
            "syscall" => {
                let k = self.conc(st, &a[0])?;
                match k { 318 => { let (p, n) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?); flt(st.mem.fill(p, n, 7, 0))?; i(n) } 202 => i(0), 332 => { flt(st.mem.write(ERRNO, 4, 38))?; i(u64::MAX) } 186 => i(1), _ => bad(format!("syscall {k}")) }
            }
            "gettid" | "getpid" => i(1),
            "__cxa_thread_atexit_impl" | "pthread_key_delete" | "sched_yield" => i(0),
            "pthread_key_create" => { let p = self.conc(st, &a[0])?; st.keys.push(0); let k = st.keys.len() as u128; flt(st.mem.write(p, 4, k))?; i(0) }
            "pthread_setspecific" => { let (k, v) = (self.conc(st, &a[0])? as usize, self.conc(st, &a[1])?); match st.keys.get_mut(k.wrapping_sub(1)) { Some(x) => { *x = v; i(0) } None => i(22) } }
            "pthread_getspecific" => { let k = self.conc(st, &a[0])? as usize; i(st.keys.get(k.wrapping_sub(1)).copied().unwrap_or(0)) }
            "sysconf" => i(4096),
            "clock_gettime" => { let p = self.conc(st, &a[1])?; flt(st.mem.write(p, 16, 0))?; i(0) }
            _ => bad(format!("external function {n}")),
        }
    }
    pub fn dsimp_pub(&mut self, _p: &PathC, e: E) -> E { e }
    fn vlookup(&self, st: &State, k: &[u8]) -> Option<usize> { let k = norm(k); st.vfs.files.iter().position(|f| f.name == k) }
    fn visdir(&self, st: &State, k: &[u8]) -> bool { let mut k = norm(k); if k == b"/" { return true; } k.push(b'/'); st.vfs.files.iter().any(|f| f.name.starts_with(&k)) }
    fn fill_stat(&mut self, st: &mut State, b: u64, len: u64, dir: bool) -> X<()> {
        flt(st.mem.fill(b, 144, 0, 0))?;
        flt(st.mem.write(b + 24, 4, if dir { 0o40755 } else { 0o100644 }))?;
        flt(st.mem.write(b + 48, 8, len as u128))
    }
}

fn norm(k: &[u8]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = vec![];
    for p in k.split(|c| *c == b'/') { match p { b"" | b"." => {} b".." => { parts.pop(); } p => parts.push(p) } }
    let mut o = vec![];
    if k.first() != Some(&b'/') { o.extend_from_slice(b"/vfs"); }
    for p in parts { o.push(b'/'); o.extend_from_slice(p); }
    if o.is_empty() { o.push(b'/'); }
    o
}
