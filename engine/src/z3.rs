//! Minimal FFI to libz3 (C API) and translation of expressions to QF_BV.
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub nanos: u64 }

pub struct Z3 { c: P, s: P, bv: Vec<P>, bl: Vec<P>, pub st: Stats }

pub enum Res { Sat(Vec<(u16, u8)>), Unsat, Unknown }

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, b"rlimit\0".as_ptr() as *const c_char);
            Z3_params_set_uint(c, p, k, 100_000_000);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: vec![], bl: vec![], st: Stats::default() }
        }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w)) }
            else {
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64));
                let l = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn grow(&mut self, n: usize) { if self.bv.len() < n { self.bv.resize(n + 256, std::ptr::null_mut()); self.bl.resize(n + 256, std::ptr::null_mut()); } }

    fn tbool(&mut self, x: &Ctx, e: E) -> P {
        self.grow(e as usize + 1);
        if !self.bl[e as usize].is_null() { return self.bl[e as usize]; }
        let n = x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if x.as_const(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq if x.w(n.a) == 1 => { let a = self.tbool(x, n.a); let b = self.tbool(x, n.b); Z3_mk_eq(c, a, b) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.tbv(x, n.a); let b = self.tbv(x, n.b);
                    match n.op { Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) }
                }
                Op::And => { let v = [self.tbool(x, n.a), self.tbool(x, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.tbool(x, n.a), self.tbool(x, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => if x.as_const(n.b) == Some(1) { let a = self.tbool(x, n.a); Z3_mk_not(c, a) } else { let a = self.tbool(x, n.a); let b = self.tbool(x, n.b); Z3_mk_xor(c, a, b) },
                Op::Ite => { let k = self.tbool(x, n.a); let a = self.tbool(x, n.b); let b = self.tbool(x, n.c); Z3_mk_ite(c, k, a, b) }
                _ => { let a = self.tbv(x, e); let one = self.num(1, 1); Z3_mk_eq(c, a, one) }
            }
        };
        self.bl[e as usize] = r;
        r
    }
    fn tbv(&mut self, x: &Ctx, e: E) -> P {
        self.grow(e as usize + 1);
        if !self.bv[e as usize].is_null() { return self.bv[e as usize]; }
        let n = x.n(e);
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(x.as_const(e).unwrap(), w),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, 8)),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.tbool(x, e); let (o, z) = (self.num(1, 1), self.num(0, 1)); Z3_mk_ite(c, b, o, z) }
                Op::Ite => { let k = self.tbool(x, n.a); let a = self.tbv(x, n.b); let b = self.tbv(x, n.c); Z3_mk_ite(c, k, a, b) }
                Op::ZExt => { let a = self.tbv(x, n.a); Z3_mk_zero_ext(c, w - x.w(n.a), a) }
                Op::SExt => { let a = self.tbv(x, n.a); Z3_mk_sign_ext(c, w - x.w(n.a), a) }
                Op::Extract => { let a = self.tbv(x, n.a); Z3_mk_extract(c, n.b + w - 1, n.b, a) }
                Op::Concat => { let a = self.tbv(x, n.a); let b = self.tbv(x, n.b); Z3_mk_concat(c, a, b) }
                Op::Lookup => {
                    let i = self.tbv(x, n.b);
                    let wi = x.w(n.b);
                    let t = x.tables[n.a as usize].clone();
                    // group runs of equal values
                    let mut runs: Vec<(u64, u64)> = vec![]; // (last index, value)
                    for (k, v) in t.vals.iter().enumerate() { match runs.last_mut() { Some(r) if r.1 == *v => r.0 = t.base + k as u64, _ => runs.push((t.base + k as u64, *v)) } }
                    let mut acc = self.num(runs.last().unwrap().1 as u128, w);
                    for (last, v) in runs.iter().rev().skip(1) {
                        let l = self.num(*last as u128, wi);
                        let vv = self.num(*v as u128, w);
                        acc = Z3_mk_ite(c, Z3_mk_bvule(c, i, l), vv, acc);
                    }
                    acc
                }
                _ => {
                    let a = self.tbv(x, n.a); let b = self.tbv(x, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn dom(&mut self, x: &mut Ctx, v: u16, m: &Mask) -> P {
        let ve = x.var(v as u32);
        let vp = self.tbv(x, ve);
        let c = self.c;
        let mut parts = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if m[i >> 6] >> (i & 63) & 1 == 0 { i += 1; continue; }
                let s = i;
                while i < 256 && m[i >> 6] >> (i & 63) & 1 == 1 { i += 1; }
                let lo = self.num(s as u128, 8); let hi = self.num(i as u128 - 1, 8);
                if s == i - 1 { parts.push(Z3_mk_eq(c, vp, lo)); }
                else { let v = [Z3_mk_bvule(c, lo, vp), Z3_mk_bvule(c, vp, hi)]; parts.push(Z3_mk_and(c, 2, v.as_ptr())); }
            }
            Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr())
        }
    }
    pub fn solve(&mut self, x: &mut Ctx, cons: &[E], doms: &[(u16, Mask)]) -> Res {
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let (c, s) = (self.c, self.s);
            Z3_solver_push(c, s);
            for (v, m) in doms { if *m != [!0; 4] { let d = self.dom(x, *v, m); Z3_solver_assert(c, s, d); } }
            for e in cons { let b = self.tbool(x, *e); Z3_solver_assert(c, s, b); }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (v, _) in doms {
                        let ve = x.var(*v as u32);
                        let vp = self.tbv(x, ve);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, vp, true, &mut o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(c, o, &mut u);
                        out.push((*v, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, s, 1);
            out
        };
        self.st.queries += 1;
        match r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        if std::env::var_os("SYMEX_Q").is_some() { eprintln!("Q {}us doms={} {}", t0.elapsed().as_micros(), doms.iter().map(|(v,m)| format!("{}:{:x?}", v, m)).collect::<Vec<_>>().join(" "), cons.iter().map(|e| x.show(*e)).collect::<Vec<_>>().join("\n   ")); }
        self.st.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
}
