//! Symbolic interpreter for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub pc: u32, pub base: u32, pub sp: u64, pub dst: u32, pub inv: Option<u32> }

#[derive(Clone)]
pub struct PathC { pub doms: Rc<Vec<Mask>>, pub multi: Rc<Vec<E>>, pub inv: Rc<Vec<bool>>, pub model: Rc<Vec<u8>>, pub nvars: usize }

pub enum EmitL { Nil, Cons(Vec<u8>, Option<Vec<E>>, Rc<EmitL>) }
impl Drop for EmitL { fn drop(&mut self) {
    // avoid deep recursion
    let mut cur = match self { EmitL::Cons(_, _, n) => std::mem::replace(n, NIL.with(|n| n.clone())), EmitL::Nil => return };
    while let Ok(mut e) = Rc::try_unwrap(cur) { cur = match &mut e { EmitL::Cons(_, _, n) => std::mem::replace(n, NIL.with(|n| n.clone())), EmitL::Nil => return }; }
} }
thread_local! { static NIL: Rc<EmitL> = Rc::new(EmitL::Nil); }

#[derive(Clone)]
pub struct VFile { pub name: Vec<u8>, pub d: Rc<Vec<u8>>, pub s: Option<Rc<Vec<E>>> }
#[derive(Clone)]
pub struct Fd { pub file: usize, pub pos: u64, pub open: bool }
#[derive(Clone, Default)]
pub struct Vfs { pub files: Vec<VFile>, pub fds: Vec<Fd>, pub dirs: Vec<Vec<u8>>, pub env: Vec<(Vec<u8>, Vec<u8>)> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, pub regs: Vec<Val>, pub mem: Mem, pub sp: u64,
    pub path: PathC, pub dec: Vec<u16>, pub cur: usize, pub icur: usize,
    /// the path before the first decision of the current instruction, from which the others are replayed
    pub ipath: PathC,
    pub emits: Rc<EmitL>, pub vfs: Rc<Vfs>, pub icount: u64, pub allow_panic: u32, pub replay_until: usize,
    pub mult: bool,
    /// values of the pthread keys created
    pub keys: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum End { Done, Assumed, Panic(String), Viol(String), Incon(String), Stop }

pub struct Violation { pub label: String, pub model: Vec<u8>, pub kind: &'static str }
pub struct Leaf { pub model: Vec<u8>, pub emit: Vec<u8>, pub status: &'static str }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub assumed: u64, pub panics: u64, pub incon: u64, pub forks: u64, pub decisions: u64, pub insts: u64,
    pub checks: u64, pub checks_const: u64, pub checks_z3: u64, pub audits: u64, pub dom_decisions: u64, pub unknown: u64, pub donated: u64,
    pub covered: u64,
}

pub struct Job { pub dec: Vec<u16>, pub model: Vec<u8> }

#[derive(Clone, Copy, PartialEq)]
pub enum Hook { PanicFmt, Abort, Alloc, Dealloc, Realloc, AllocZ, Memchr }

pub struct Shared {
    pub q: std::sync::Mutex<std::collections::VecDeque<Job>>,
    pub cv: std::sync::Condvar,
    pub idle: std::sync::atomic::AtomicUsize,
    pub stop: std::sync::atomic::AtomicBool,
    pub workers: usize,
    pub deadline: std::time::Instant,
    pub max_insts: u64,
    pub max_paths: u64,
    pub paths: std::sync::atomic::AtomicU64,
}

pub struct Worker {
    pub m: &'static Module,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub hooks: Vec<Option<Hook>>,
    pub hasher: Vec<bool>,
    pub x: Ctx,
    pub z: Z3,
    pub st: Stats,
    pub stack: Vec<State>,
    pub violations: Vec<Violation>,
    pub leaves: Vec<Leaf>,
    pub max_leaves: usize,
    pub incon: BTreeMap<String, u64>,
    pub incon_models: Vec<(String, Vec<u8>)>,
    pub reach: BTreeMap<String, u64>,
    pub used: HashSet<u32>,
    pub audited: HashSet<(E, Mask)>,
    pub icache: HashMap<Vec<u32>, Option<Vec<(u16, u8)>>>,
    pub sh: Option<std::sync::Arc<Shared>>,
    pub prof: bool,
    pub profc: HashMap<u32, u64>,
    pub tls_base: u64,
}

type X<T> = Result<T, End>;
fn flt<T>(r: Result<T, Fault>) -> X<T> { r.map_err(|f| if f.0 < 0x10000 { End::Viol(format!("null pointer access {:#x}", f.0)) } else { End::Viol(format!("invalid memory access {:#x}", f.0)) }) }
fn bad<T>(s: impl Into<String>) -> X<T> { Err(End::Incon(s.into())) }

fn mand(a: &Mask, b: &Mask) -> Mask { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn mnot(a: &Mask) -> Mask { [!a[0], !a[1], !a[2], !a[3]] }
fn mempty(a: &Mask) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
fn mhas(a: &Mask, v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
fn mfirst(a: &Mask) -> u8 { for i in 0..4 { if a[i] != 0 { return (i * 64) as u8 + a[i].trailing_zeros() as u8; } } 0 }

impl Worker {
    pub fn new(m: &'static Module) -> Worker {
        let mut hooks = vec![];
        for f in &m.fns {
            let n = &f.name;
            let h = if n.contains("4core9panicking9panic_fmt") || n.contains("17rust_begin_unwind") || n.contains("20rust_panic_with_hook") || n.contains("9panicking11begin_panic") || n.contains("panic_nounwind_fmt") || n.contains("4core9panicking5panic") && !n.contains("panic_") { Some(Hook::PanicFmt) }
                else if n.contains("18handle_alloc_error") || n.contains("3std7process5abort") || n.contains("14abort_internal") { Some(Hook::Abort) }
                else if n.contains("12___rust_alloc") && n.ends_with("12___rust_alloc") || n.contains("11___rdl_alloc") && n.ends_with("11___rdl_alloc") { Some(Hook::Alloc) }
                else if n.ends_with("14___rust_dealloc") || n.ends_with("13___rdl_dealloc") { Some(Hook::Dealloc) }
                else if n.ends_with("14___rust_realloc") || n.ends_with("13___rdl_realloc") { Some(Hook::Realloc) }
                else if n.ends_with("19___rust_alloc_zeroed") || n.ends_with("18___rdl_alloc_zeroed") { Some(Hook::AllocZ) }
                else if n.contains("4core5slice6memchr14memchr_aligned") || n.contains("4core5slice6memchr12memchr_naive") { Some(Hook::Memchr) }
                else { None };
            hooks.push(h);
        }
        Worker { m, funcs: (0..m.fns.len()).map(|_| None).collect(), hooks, hasher: m.fns.iter().map(|f| f.name.contains("4hash3sip") && f.name.contains("Hasher5write")).collect(), x: Ctx::new(), z: Z3::new(), st: Stats::default(), stack: vec![], violations: vec![], leaves: vec![], max_leaves: 100,
            incon: BTreeMap::new(), incon_models: vec![], reach: BTreeMap::new(), used: HashSet::new(), audited: HashSet::new(), icache: HashMap::new(), sh: None, prof: false, profc: HashMap::new(), tls_base: 0 }
    }
    pub fn func(&mut self, id: u32) -> X<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize] { return Ok(f.clone()); }
        let f = match self.m.func(id) { Ok(f) => Rc::new(f), Err(e) => return bad(format!("parse {}: {}", self.m.fns[id as usize].name, e)) };
        self.funcs[id as usize] = Some(f.clone());
        self.used.insert(id);
        Ok(f)
    }
    pub fn init_state(&mut self, entry: u32) -> X<State> {
        let img: &'static [u8] = &self.m.img;
        let mut st = State { frames: vec![], regs: vec![], mem: Mem::new(img), sp: STACK + STACK_SZ - 4096,
            path: PathC { doms: Rc::new(vec![]), multi: Rc::new(vec![]), inv: Rc::new(vec![]), model: Rc::new(vec![]), nvars: 0 },
            ipath: PathC { doms: Rc::new(vec![]), multi: Rc::new(vec![]), inv: Rc::new(vec![]), model: Rc::new(vec![]), nvars: 0 },
            dec: vec![], cur: 0, icur: 0, emits: NIL.with(|n| n.clone()), vfs: Rc::new(Vfs::default()), icount: 0, allow_panic: 0, replay_until: 0, mult: false, keys: vec![] };
        let f = self.func(entry)?;
        st.regs = vec![Val::I(0); f.nregs as usize];
        st.frames.push(Frame { f, blk: 0, pc: 0, base: 0, sp: st.sp, dst: NODST, inv: None });
        Ok(st)
    }

    // ------------------------------------------------------------ path constraints
    fn conj(&self, e: E, out: &mut Vec<E>) {
        let n = self.x.n(e);
        if n.op == Op::And && n.w == 1 && self.x.single(e).is_none() { self.conj(n.a, out); self.conj(n.b, out); } else { out.push(e); }
    }
    /// simplify a boolean under the current variable domains
    fn dsimp(&mut self, p: &PathC, e: E) -> E {
        if let Some(v) = self.x.single(e) {
            let m = self.x.mask(e, v); let d = p.doms[v as usize];
            let t = mand(&d, &m);
            if mempty(&t) { self.audit(e, v, &d); return self.x.ff(); }
            if t == d { let n = self.x.not(e); self.audit(n, v, &d); return self.x.tt(); }
            return e;
        }
        let n = self.x.n(e);
        match n.op {
            Op::And | Op::Or if n.w == 1 => { let a = self.dsimp(p, n.a); let b = self.dsimp(p, n.b); if a == n.a && b == n.b { e } else { self.x.bin(n.op, a, b) } }
            Op::Xor if n.w == 1 => { let a = self.dsimp(p, n.a); if a == n.a { e } else { self.x.bin(Op::Xor, a, n.b) } }
            Op::Ite if n.w == 1 => { let a = self.dsimp(p, n.a); let b = self.dsimp(p, n.b); let c = self.dsimp(p, n.c); self.x.ite(a, b, c) }
            Op::Eq => {
                // ite-valued operands with domain-decided conditions
                let a = self.dval(p, n.a); let b = self.dval(p, n.b);
                if a == n.a && b == n.b { e } else { let r = self.x.bin(Op::Eq, a, b); if r == e { e } else { self.dsimp(p, r) } }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let a = self.dval(p, n.a); let b = self.dval(p, n.b); if a == n.a && b == n.b { e } else { self.x.bin(n.op, a, b) } }
            _ => e,
        }
    }
    fn dval(&mut self, p: &PathC, e: E) -> E {
        let n = self.x.n(e);
        if n.op == Op::Const { return e; }
        if let Some(v) = self.x.single(e) {
            let d = p.doms[v as usize];
            let c: u32 = d.iter().map(|x| x.count_ones()).sum();
            if c == 1 { let r = self.x.eval1(e, v, mfirst(&d)); let w = self.x.w(e); if w <= 128 { return self.x.cnst(r, w); } }
        }
        match n.op {
            Op::Ite => { let c = self.dsimp(p, n.a); if let Some(k) = self.x.as_const(c) { return self.dval(p, if k == 1 { n.b } else { n.c }); } let a = self.dval(p, n.b); let b = self.dval(p, n.c); self.x.ite(c, a, b) }
            Op::Concat => { let a = self.dval(p, n.a); let b = self.dval(p, n.b); if a == n.a && b == n.b { e } else { self.x.concat(a, b) } }
            Op::And | Op::Or | Op::Xor | Op::Add => { let a = self.dval(p, n.a); let b = self.dval(p, n.b); if a == n.a && b == n.b { e } else { self.x.bin(n.op, a, b) } }
            Op::ZExt => { let a = self.dval(p, n.a); if a == n.a { e } else { self.x.zext(a, n.w as u32) } }
            _ => e,
        }
    }
    fn add_constraint(&mut self, p: &mut PathC, c: E) {
        let mut l = vec![];
        self.conj(c, &mut l);
        for e in l {
            if self.x.as_const(e).is_some() { continue; }
            if let Some(v) = self.x.single(e) {
                let m = self.x.mask(e, v);
                let d = mand(&p.doms[v as usize], &m);
                if d != p.doms[v as usize] { Rc::make_mut(&mut p.doms)[v as usize] = d; }
            } else if !p.multi.contains(&e) {
                for v in self.x.vars(e) { if !p.inv[v as usize] { Rc::make_mut(&mut p.inv)[v as usize] = true; } }
                Rc::make_mut(&mut p.multi).push(e);
            }
        }
    }
    fn audit(&mut self, e: E, v: u16, d: &Mask) {
        // z3 confirms, once per distinct (condition, domain), that the side discarded by the byte-domain procedure is infeasible
        // (all of the first 256 distinct decisions of a worker, then one in 32)
        if self.audited.insert((e, *d)) && (self.audited.len() <= 256 || self.audited.len() % 32 == 0) {
            self.st.audits += 1;
            match self.z.solve(&mut self.x, &[e], &[(v, *d)]) { Res::Unsat => {} Res::Sat(m) => panic!("domain procedure disagrees with z3: {} {:?}", self.x.show(e), m), Res::Unknown => self.st.unknown += 1 }
        }
    }
    /// a model of path ∧ cond, or None if unsatisfiable
    fn find_model(&mut self, p: &PathC, cond: E) -> X<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.x.as_const(cond) { return Ok(if k == 1 { Some(p.model.clone()) } else { None }); }
        let mut lits = vec![];
        self.conj(cond, &mut lits);
        let mut nd: BTreeMap<u16, Mask> = BTreeMap::new();
        let mut multi_l = vec![];
        for &l in &lits {
            if let Some(k) = self.x.as_const(l) { if k == 0 { return Ok(None); } continue; }
            if let Some(v) = self.x.single(l) {
                let m = self.x.mask(l, v);
                let base = nd.get(&v).copied().unwrap_or(p.doms[v as usize]);
                let r = mand(&base, &m);
                if mempty(&r) { self.audit(l, v, &base); return Ok(None); }
                nd.insert(v, r);
            } else { multi_l.push(l); }
        }
        let need: Vec<u16> = nd.keys().copied().collect();
        let mut touched_inv = !multi_l.is_empty();
        for v in &need { if p.inv[*v as usize] { touched_inv = true; } }
        let mut cand = p.model.clone();
        for (v, m) in &nd { if !mhas(m, cand[*v as usize]) { Rc::make_mut(&mut cand)[*v as usize] = mfirst(m); } }
        if !touched_inv { return Ok(Some(cand)); }
        // closure of related constraints
        let mut vars: BTreeSet<u16> = need.iter().copied().collect();
        for l in &multi_l { for v in self.x.vars(*l) { vars.insert(v); } }
        let mut cons: Vec<E> = multi_l.clone();
        let mut inc = vec![false; p.multi.len()];
        loop {
            let mut ch = false;
            for (i, c) in p.multi.iter().enumerate() {
                if inc[i] { continue; }
                let vs = self.x.vars(*c);
                if vs.iter().any(|v| vars.contains(v)) { inc[i] = true; ch = true; cons.push(*c); for v in vs { vars.insert(v); } }
            }
            if !ch { break; }
        }
        let ok = |s: &mut Worker, m: &[u8]| cons.iter().all(|c| s.x.eval(*c, m) == 1);
        if ok(self, &cand) { return Ok(Some(cand)); }
        // cheap local search
        if vars.len() <= 6 {
            for &v in &vars {
                let d = nd.get(&v).copied().unwrap_or(p.doms[v as usize]);
                let mut t = (*cand).clone();
                let old = t[v as usize];
                let mut tries = 0;
                for k in 0..=255u8 { if k != old && mhas(&d, k) { t[v as usize] = k; if ok(self, &t) { return Ok(Some(Rc::new(t))); } tries += 1; if tries > 24 { break; } } }
            }
        }
        let doms: Vec<(u16, Mask)> = vars.iter().map(|v| (*v, nd.get(v).copied().unwrap_or(p.doms[*v as usize]))).collect();
        let mut key: Vec<u32> = cons.clone();
        key.sort();
        key.push(0);
        for (v, m) in &doms { key.push(*v as u32); for w in m { key.push(*w as u32); key.push((*w >> 32) as u32); } }
        let r = match self.icache.get(&key) { Some(r) => r.clone(), None => {
            let r = match self.z.solve(&mut self.x, &cons, &doms) { Res::Sat(m) => Some(m), Res::Unsat => None, Res::Unknown => { self.st.unknown += 1; return bad("solver returned unknown"); } };
            self.icache.insert(key, r.clone());
            r } };
        Ok(r.map(|a| { let mut c = cand.clone(); let t = Rc::make_mut(&mut c); for (v, k) in a { t[v as usize] = k; } c }))
    }

    fn maybe_donate(&mut self) {
        let Some(sh) = self.sh.clone() else { return };
        if sh.idle.load(std::sync::atomic::Ordering::Relaxed) == 0 || self.stack.is_empty() { return; }
        let mut q = sh.q.lock().unwrap();
        if q.len() < sh.workers && !self.stack.is_empty() {
            let s = self.stack.remove(0);
            self.st.donated += 1;
            q.push_back(Job { dec: s.dec.clone(), model: (*s.path.model).clone() });
            sh.cv.notify_one();
        }
    }
    fn push_sibling(&mut self, st: &State, tail: &[u16], model: Rc<Vec<u8>>) {
        let mut s = st.clone();
        s.cur = s.icur;
        s.path = s.ipath.clone();
        s.dec.extend_from_slice(tail);
        s.path.model = model;
        self.st.forks += 1;
        self.stack.push(s);
        self.maybe_donate();
    }

    pub fn consistent(&mut self, p: &PathC) -> bool {
        (0..p.nvars).all(|v| mhas(&p.doms[v], p.model[v])) && p.multi.iter().all(|c| self.x.eval(*c, &p.model) == 1)
    }
    /// decide between mutually exclusive, exhaustive conditions; forks
    pub fn choose(&mut self, st: &mut State, conds: &[E]) -> X<usize> {
        if st.cur == st.icur { st.ipath = st.path.clone(); }
        if st.cur < st.dec.len() {
            let d = st.dec[st.cur];
            st.cur += 1;
            let i = (d & 0x7fff) as usize;
            if d & 0x8000 == 0 { self.add_constraint(&mut st.path, conds[i]); }
            return Ok(i);
        }
        self.st.decisions += 1;
        let mut feas: Vec<(usize, Rc<Vec<u8>>)> = vec![];
        // exactly one holds in the current model
        let model = st.path.model.clone();
        let mut cur = usize::MAX;
        for (i, c) in conds.iter().enumerate() { if cur == usize::MAX && self.x.eval(*c, &model) == 1 { cur = i; } }
        if cur == usize::MAX { return bad("choose: no alternative holds in the model"); }
        for (i, c) in conds.iter().enumerate() {
            if i == cur { feas.push((i, model.clone())); continue; }
            if let Some(m) = self.find_model(&st.path, *c)? { feas.push((i, m)); }
        }
        if feas.len() == 1 {
            st.dec.push(0x8000 | cur as u16);
            st.cur += 1;
            return Ok(cur);
        }
        for (i, m) in feas { if i != cur { self.push_sibling(st, &[i as u16], m); } }
        st.dec.push(cur as u16);
        st.cur += 1;
        self.add_constraint(&mut st.path, conds[cur]);
        Ok(cur)
    }
    pub fn branch(&mut self, st: &mut State, c: E) -> X<bool> {
        let c = self.dsimp(&st.path, c);
        if let Some(k) = self.x.as_const(c) { self.st.dom_decisions += 1; return Ok(k == 1); }
        let n = self.x.not(c);
        Ok(self.choose(st, &[c, n])? == 0)
    }
    /// fork over all feasible values of an expression
    pub fn concretize(&mut self, st: &mut State, e: E) -> X<u64> {
        let e = self.dval(&st.path, e);
        if let Some(k) = self.x.as_const(e) { return Ok(k as u64); }
        let w = self.x.w(e);
        if st.cur == st.icur { st.ipath = st.path.clone(); }
        if st.cur < st.dec.len() {
            let mut v = 0u64;
            for k in 0..4 { v |= (st.dec[st.cur + k] as u64) << (16 * k); }
            st.cur += 4;
            let k = self.x.cnst(v as u128, w);
            let c = self.x.bin(Op::Eq, e, k);
            self.add_constraint(&mut st.path, c);
            return Ok(v);
        }
        self.st.decisions += 1;
        let enc = |v: u64| [v as u16, (v >> 16) as u16, (v >> 32) as u16, (v >> 48) as u16];
        let model = st.path.model.clone();
        let v0 = self.x.eval(e, &model) as u64;
        let mut vals: Vec<(u64, Rc<Vec<u8>>)> = vec![];
        if let Some(v) = self.x.single(e) {
            let d = st.path.doms[v as usize];
            let mut seen = BTreeSet::new();
            seen.insert(v0);
            for k in 0..=255u8 { if mhas(&d, k) {
                let r = self.x.eval1(e, v, k) as u64;
                if seen.contains(&r) { continue; }
                if st.path.inv[v as usize] {
                    let kc = self.x.cnst(r as u128, w);
                    let c = self.x.bin(Op::Eq, e, kc);
                    seen.insert(r);
                    if let Some(m) = self.find_model(&st.path, c)? { vals.push((r, m)); }
                } else {
                    seen.insert(r);
                    let mut m = model.clone();
                    Rc::make_mut(&mut m)[v as usize] = k;
                    vals.push((r, m));
                }
            } }
        } else {
            let mut p = st.path.clone();
            let mut known = v0;
            loop {
                let kc = self.x.cnst(known as u128, w);
                let eq = self.x.bin(Op::Eq, e, kc);
                let ne = self.x.not(eq);
                let Some(m) = self.find_model(&p, ne)? else { break };
                self.add_constraint(&mut p, ne);
                p.model = m.clone();
                known = self.x.eval(e, &m) as u64;
                vals.push((known, m));
                if vals.len() > 512 { return bad("fan-out of a symbolic value exceeds 512"); }
            }
        }
        for (v, m) in vals { self.push_sibling(st, &enc(v), m); }
        st.dec.extend_from_slice(&enc(v0));
        st.cur += 4;
        let k = self.x.cnst(v0 as u128, w);
        let c = self.x.bin(Op::Eq, e, k);
        self.add_constraint(&mut st.path, c);
        Ok(v0)
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o { Opd::R(r) => st.regs[(st.frames.last().unwrap().base + r) as usize].clone(), Opd::C(v) => v.clone() }
    }
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v { Val::I(x) => self.x.cnst(*x as u128, w), Val::W(x) => self.x.cnst(**x, w), Val::S(e) => *e, Val::A(l) => {
            // vector lanes -> integer
            let lw = w / l.len().max(1) as u32;
            let mut acc: Option<E> = None;
            for x in l.iter() { let e = self.to_e(x, lw); acc = Some(match acc { None => e, Some(a) => self.x.concat(e, a) }); }
            acc.unwrap_or_else(|| self.x.cnst(0, w))
        } }
    }
    pub fn of_e(&self, e: E) -> Val { match self.x.as_const(e) { Some(k) => if self.x.w(e) <= 64 { Val::I(k as u64) } else { Val::W(Rc::new(k)) }, None => Val::S(e) } }
    fn of_u(v: u128, w: u32) -> Val { if w <= 64 { Val::I(v as u64) } else { Val::W(Rc::new(v)) } }
    fn as_u(v: &Val) -> Option<u128> { match v { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None } }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> X<u64> { match v { Val::I(x) => Ok(*x), Val::S(e) => self.concretize(st, *e), Val::W(x) => Ok(**x as u64), Val::A(_) => bad("aggregate where scalar expected") } }

    pub fn load(&mut self, st: &mut State, ty: &Ty, a: u64) -> X<Val> {
        match ty {
            Ty::Int(w) => {
                let w = *w;
                let n = ((w + 7) / 8) as usize;
                if n > 16 { return bad("load wider than 128 bits"); }
                match flt(st.mem.read(a, n))? {
                    Some(v) => Ok(Self::of_u(v & maskw(w), w)),
                    None => {
                        let mut acc: Option<E> = None;
                        for i in (0..n).rev() {
                            let (c, e) = flt(st.mem.byte(a + i as u64))?;
                            let e = if e != 0 { e } else { self.x.cnst(c as u128, 8) };
                            acc = Some(match acc { None => e, Some(h) => self.x.concat(h, e) });
                        }
                        let mut e = acc.unwrap();
                        if (n as u32) * 8 != w { e = self.x.extract(e, 0, w); }
                        Ok(self.of_e(e))
                    }
                }
            }
            Ty::Ptr | Ty::F64 => self.load(st, &Ty::Int(64), a),
            Ty::F32 => self.load(st, &Ty::Int(32), a),
            Ty::Vec(n, t) if t.bits() < 8 => {
                let v = self.load(st, &Ty::Int((*n as u32) * t.bits()), a)?;
                self.split_lanes(&v, *n as usize, t.bits())
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let n = ty.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n { let (t, o) = ty.field(i); v.push(self.load(st, &t, a + o)?); }
                Ok(Val::A(Rc::new(v)))
            }
            _ => bad("load type"),
        }
    }
    fn split_lanes(&mut self, v: &Val, n: usize, w: u32) -> X<Val> {
        let mut out = vec![];
        for i in 0..n {
            out.push(match Self::as_u(v) { Some(u) => Self::of_u((u >> (i as u32 * w)) & maskw(w), w), None => { let Val::S(e) = v else { return bad("lanes") }; let x = self.x.extract(*e, i as u32 * w, w); self.of_e(x) } });
        }
        Ok(Val::A(Rc::new(out)))
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u64) -> X<()> {
        match ty {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                match v {
                    Val::I(x) => flt(st.mem.write(a, n, *x as u128)),
                    Val::W(x) => flt(st.mem.write(a, n, **x)),
                    Val::S(e) => {
                        let e = if n as u32 * 8 != *w { self.x.zext(*e, n as u32 * 8) } else { *e };
                        for i in 0..n {
                            let b = self.x.extract(e, 8 * i as u32, 8);
                            match self.x.as_const(b) { Some(k) => flt(st.mem.put(a + i as u64, k as u8, 0))?, None => flt(st.mem.put(a + i as u64, 0, b))? }
                        }
                        Ok(())
                    }
                    Val::A(_) => bad("store agg as int"),
                }
            }
            Ty::Ptr | Ty::F64 => self.store(st, &Ty::Int(64), v, a),
            Ty::F32 => self.store(st, &Ty::Int(32), v, a),
            Ty::Vec(n, t) if t.bits() < 8 => { let w = *n as u32 * t.bits(); let e = self.to_e(v, w); let v = self.of_e(e); self.store(st, &Ty::Int(w), &v, a) }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let Val::A(l) = v else { return bad("store scalar as agg") };
                for i in 0..ty.nfields() { let (t, o) = ty.field(i); self.store(st, &t, &l[i], a + o)?; }
                Ok(())
            }
            _ => bad("store type"),
        }
    }
    /// load through a possibly symbolic pointer
    fn load_ptr(&mut self, st: &mut State, ty: &Ty, p: &Val) -> X<Val> {
        let a = match p {
            Val::I(a) => *a,
            Val::S(e) => {
                let e = self.dval(&st.path, *e);
                if let Some(k) = self.x.as_const(e) { k as u64 } else {
                    let w = match ty { Ty::Int(w) if *w <= 64 => *w, Ty::Ptr => 64, _ => 0 };
                    if let (Some(v), true) = (self.x.single(e), w > 0) {
                        let d = st.path.doms[v as usize];
                        let mut tab = vec![0u64; 256];
                        let mut okk = true;
                        let mut last: Option<u64> = None;
                        for k in 0..=255u8 { if mhas(&d, k) {
                            let a = self.x.eval1(e, v, k) as u64;
                            match st.mem.read(a, ((w + 7) / 8) as usize) { Ok(Some(x)) => { tab[k as usize] = (x & maskw(w)) as u64; last = Some(tab[k as usize]); } _ => { okk = false; break; } }
                        } }
                        if okk && last.is_some() {
                            // values outside the domain are irrelevant: extend runs so that the table stays small
                            let mut cur = last.unwrap();
                            for k in (0..256).rev() { if mhas(&d, k as u8) { cur = tab[k]; } else { tab[k] = cur; } }
                            let ve = self.x.var(v as u32);
                            let r = self.x.lookup(ve, 0, tab, w);
                            return Ok(self.of_e(r));
                        }
                    }
                    self.concretize(st, e)?
                }
            }
            _ => return bad("load pointer"),
        };
        self.load(st, ty, a)
    }

    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sxt(*x, w) > sxt(*y, w), Pred::Sge => sxt(*x, w) >= sxt(*y, w), Pred::Slt => sxt(*x, w) < sxt(*y, w), Pred::Sle => sxt(*x, w) <= sxt(*y, w) };
            return Val::I(r as u64);
        }
        let (a, b) = (self.to_e(a, w), self.to_e(b, w));
        let x = &mut self.x;
        let r = match p {
            Pred::Eq => x.bin(Op::Eq, a, b), Pred::Ne => { let e = x.bin(Op::Eq, a, b); x.not(e) }
            Pred::Ugt => x.bin(Op::Ult, b, a), Pred::Uge => x.bin(Op::Ule, b, a), Pred::Ult => x.bin(Op::Ult, a, b), Pred::Ule => x.bin(Op::Ule, a, b),
            Pred::Sgt => x.bin(Op::Slt, b, a), Pred::Sge => x.bin(Op::Sle, b, a), Pred::Slt => x.bin(Op::Slt, a, b), Pred::Sle => x.bin(Op::Sle, a, b),
        };
        self.of_e(r)
    }
    fn bin1(&mut self, st: &mut State, k: BinK, t: &Ty, a: &Val, b: &Val) -> X<Val> {
        let w = t.bits();
        use BinK::*;
        match k {
            FAdd | FSub | FMul | FDiv | FRem => {
                let (x, y) = (self.conc(st, a)?, self.conc(st, b)?);
                return Ok(Val::I(if w == 32 {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match k { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y }).to_bits() as u64
                } else {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    (match k { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y }).to_bits()
                }));
            }
            _ => {}
        }
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match k {
                Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y), And => x & y, Or => x | y, Xor => x ^ y,
                Shl => if y >= w as u64 { 0 } else { x << y }, LShr => if y >= w as u64 { 0 } else { x >> y },
                AShr => (sxt(x, w) >> y.min(w as u64 - 1)) as u64,
                UDiv | URem | SDiv | SRem => { if y == 0 { return Err(End::Viol("division by zero".into())); } match k { UDiv => x / y, URem => x % y, SDiv => sxt(x, w).wrapping_div(sxt(y, w)) as u64, _ => sxt(x, w).wrapping_rem(sxt(y, w)) as u64 } }
                _ => unreachable!(),
            };
            return Ok(Val::I(trunc(r, w)));
        }
        if w > 128 { return bad("integer wider than 128 bits"); }
        let op = match k { Add => Op::Add, Sub => Op::Sub, Mul => Op::Mul, UDiv => Op::UDiv, SDiv => Op::SDiv, URem => Op::URem, SRem => Op::SRem, And => Op::And, Or => Op::Or, Xor => Op::Xor, Shl => Op::Shl, LShr => Op::LShr, _ => Op::AShr };
        let (a, b) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.x.bin(op, a, b);
        Ok(self.of_e(r))
    }
    fn cast1(&mut self, st: &mut State, k: CastK, f: &Ty, t: &Ty, v: &Val) -> X<Val> {
        let (wf, wt) = (f.bits(), t.bits());
        Ok(match k {
            CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::PtrToInt | CastK::IntToPtr => {
                let sxn = k == CastK::SExt;
                if let Some(u) = Self::as_u(v) { Self::of_u(if sxn { (sx(u, wf) as u128) & maskw(wt) } else { u & maskw(wt) }, wt) }
                else { let Val::S(e) = v else { return bad("cast agg") }; let r = if wt < wf { self.x.extract(*e, 0, wt) } else if sxn { self.x.sext(*e, wt) } else { self.x.zext(*e, wt) }; self.of_e(r) }
            }
            CastK::Bitcast => {
                match (f, t) {
                    (Ty::Vec(..), Ty::Vec(n, tt)) => { let e = self.to_e(v, wf); let v = self.of_e(e); self.split_lanes(&v, *n as usize, tt.bits())? }
                    (Ty::Vec(..), _) => { let e = self.to_e(v, wf); self.of_e(e) }
                    (_, Ty::Vec(n, tt)) => self.split_lanes(v, *n as usize, tt.bits())?,
                    _ => v.clone(),
                }
            }
            _ => {
                let x = self.conc(st, v)?;
                let fv = |x: u64, w: u32| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let tv = |d: f64, w: u32| if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                Val::I(match k {
                    CastK::FpToUi => trunc(fv(x, wf) as u64, wt), CastK::FpToSi => trunc(fv(x, wf) as i64 as u64, wt),
                    CastK::UiToFp => if wt == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                    CastK::SiToFp => if wt == 32 { (sxt(x, wf) as f32).to_bits() as u64 } else { (sxt(x, wf) as f64).to_bits() },
                    CastK::FpTrunc | CastK::FpExt => tv(fv(x, wf), wt), _ => unreachable!(),
                })
            }
        })
    }

    // ------------------------------------------------------------ main loop
    #[inline]
    fn set(&mut self, st: &mut State, dst: u32, v: Val) { if dst != NODST { let b = st.frames.last().unwrap().base; st.regs[(b + dst) as usize] = v; } }

    fn goto(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let base = fr.base as usize;
            if let Some(moves) = b.edges.get(&from) {
                if moves.len() == 1 {
                    let v = self.get(st, &moves[0].1);
                    st.regs[base + moves[0].0 as usize] = v;
                } else {
                    let vals: Vec<Val> = moves.iter().map(|(_, o)| self.get(st, o)).collect();
                    for ((d, _), v) in moves.iter().zip(vals) { st.regs[base + *d as usize] = v; }
                }
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = target;
        fr.pc = 0;
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> bool {
        let fr = st.frames.pop().unwrap();
        st.regs.truncate(fr.base as usize);
        st.sp = fr.sp;
        if st.frames.is_empty() { return true; }
        if let Some(v) = v { self.set(st, fr.dst, v); }
        if let Some(b) = fr.inv { self.goto(st, b); } else { st.frames.last_mut().unwrap().pc += 1; }
        false
    }
    fn finish_call(&mut self, st: &mut State, dst: u32, inv: Option<u32>, v: Option<Val>) {
        if let Some(v) = v { self.set(st, dst, v); }
        if let Some(b) = inv { self.goto(st, b); } else { st.frames.last_mut().unwrap().pc += 1; }
    }

    pub fn run(&mut self, st: &mut State) -> End {
        match self.run_(st) { Ok(()) => End::Done, Err(e) => e }
    }
    fn run_(&mut self, st: &mut State) -> X<()> {
        let max = self.sh.as_ref().map_or(u64::MAX, |s| s.max_insts);
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let blk = fr.blk as usize;
            let mut pc = fr.pc as usize;
            let base = fr.base as usize;
            let insts = &f.blocks[blk].insts;
            // straight-line execution inside a block
            loop {
                st.icount += 1;
                let i = &insts[pc];
                st.icur = st.cur;
                macro_rules! g { ($o:expr) => { match $o { Opd::R(r) => &st.regs[base + *r as usize], Opd::C(v) => v } } }
                match &i.op {
                    In::Bin(k, t, a, b) => {
                        // fast path
                        if let (Val::I(x), Val::I(y), Ty::Int(w)) = (g!(a), g!(b), t) {
                            let (x, y, w) = (*x, *y, *w);
                            let r = match k { BinK::Add => x.wrapping_add(y), BinK::Sub => x.wrapping_sub(y), BinK::And => x & y, BinK::Or => x | y, BinK::Xor => x ^ y, BinK::Mul => x.wrapping_mul(y),
                                _ => { let (a, b) = (Val::I(x), Val::I(y)); let v = self.bin1(st, *k, t, &a, &b)?; st.regs[base + i.dst as usize] = v; pc += 1; continue; } };
                            st.regs[base + i.dst as usize] = Val::I(trunc(r, w));
                            pc += 1;
                            continue;
                        }
                        let (a, b) = (g!(a).clone(), g!(b).clone());
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        if matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) {
                            if let Val::S(e) = &b { let w = t.bits(); let z = self.x.cnst(0, w); let c = self.x.bin(Op::Eq, *e, z); if self.branch(st, c)? { return Err(End::Viol("division by zero".into())); } }
                        }
                        let v = if let Ty::Vec(_, t) = t {
                            let (Val::A(x), Val::A(y)) = (&a, &b) else { return bad("vector op") };
                            let mut o = vec![]; for (p, q) in x.iter().zip(y.iter()) { o.push(self.bin1(st, *k, t, p, q)?); } Val::A(Rc::new(o))
                        } else { self.bin1(st, *k, t, &a, &b)? };
                        st.regs[base + i.dst as usize] = v;
                    }
                    In::Icmp(p, t, a, b) => {
                        let (a, b) = (g!(a).clone(), g!(b).clone());
                        let v = if let Ty::Vec(_, t) = t {
                            let (Val::A(x), Val::A(y)) = (&a, &b) else { return bad("vector icmp") };
                            let w = t.bits();
                            Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| self.icmp1(*p, w, p1, q)).collect()))
                        } else { self.icmp1(*p, t.bits(), &a, &b) };
                        st.regs[base + i.dst as usize] = v;
                    }
                    In::Gep(b, off, dy) => {
                        let bv = g!(b).clone();
                        let mut conc = match &bv { Val::I(x) => x.wrapping_add(*off as u64), _ => *off as u64 };
                        let mut sym: Option<E> = match &bv { Val::S(e) => Some(*e), Val::I(_) => None, _ => return bad("gep base") };
                        for (o, w, s) in dy {
                            match g!(o).clone() {
                                Val::I(x) => conc = conc.wrapping_add((sxt(x, *w)).wrapping_mul(*s) as u64),
                                Val::S(e) => { let e = self.x.sext(e, 64); let k = self.x.cnst(*s as u64 as u128, 64); let m = self.x.bin(Op::Mul, e, k); sym = Some(match sym { None => m, Some(x) => self.x.bin(Op::Add, x, m) }); }
                                _ => return bad("gep index"),
                            }
                        }
                        let v = match sym { None => Val::I(conc), Some(s) => { let k = self.x.cnst(conc as u128, 64); let r = self.x.bin(Op::Add, s, k); self.of_e(r) } };
                        st.regs[base + i.dst as usize] = v;
                    }
                    In::Load(t, p) => {
                        let pv = g!(p).clone();
                        if let (Val::I(a), Ty::Int(_) | Ty::Ptr) = (&pv, t) {
                            let w = t.bits();
                            if w <= 64 { if let Ok(Some(v)) = st.mem.read(*a, ((w + 7) / 8) as usize) { st.regs[base + i.dst as usize] = Val::I((v & maskw(w)) as u64); pc += 1; continue; } }
                        }
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let v = self.load_ptr(st, t, &pv)?;
                        st.regs[base + i.dst as usize] = v;
                    }
                    In::Store(t, v, p) => {
                        let (v, p) = (g!(v).clone(), g!(p).clone());
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let a = match &p { Val::I(a) => *a, _ => self.conc(st, &p)? };
                        self.store(st, t, &v, a)?;
                    }
                    In::Cast(k, f, t, v) => {
                        let v = g!(v).clone();
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let r = match (f, t, k) {
                            (_, _, CastK::Bitcast) => self.cast1(st, *k, f, t, &v)?,
                            (Ty::Vec(_, f), Ty::Vec(_, t), _) => { let Val::A(l) = &v else { return bad("vector cast") }; let mut o = vec![]; for x in l.iter() { o.push(self.cast1(st, *k, f, t, x)?); } Val::A(Rc::new(o)) }
                            _ => self.cast1(st, *k, f, t, &v)?,
                        };
                        st.regs[base + i.dst as usize] = r;
                    }
                    In::Alloca(sz, al, n) => {
                        let n = match n { None => 1, Some(o) => match g!(o) { Val::I(x) => *x, _ => return bad("symbolic alloca") } };
                        st.sp = (st.sp - sz * n) & !(al.max(&1) - 1);
                        if st.sp < STACK + STACK_SZ - (8 << 20) { return Err(End::Viol("stack overflow (8 MiB)".into())); }
                        let sp = st.sp;
                        // fresh stack slots read as zero
                        st.regs[base + i.dst as usize] = Val::I(sp);
                    }
                    In::ExtractValue(o, ix) => {
                        let mut v = g!(o).clone();
                        for k in ix { let Val::A(l) = &v else { return bad("extractvalue") }; let n = l[*k as usize].clone(); v = n; }
                        st.regs[base + i.dst as usize] = v;
                    }
                    In::InsertValue(_, o, x, ix) => {
                        let v = g!(o).clone(); let x = g!(x).clone();
                        fn ins(v: Val, x: Val, ix: &[u32]) -> Option<Val> { if ix.is_empty() { return Some(x); } let Val::A(mut l) = v else { return None }; let cur = l[ix[0] as usize].clone(); let n = ins(cur, x, &ix[1..])?; Rc::make_mut(&mut l)[ix[0] as usize] = n; Some(Val::A(l)) }
                        let Some(r) = ins(v, x, ix) else { return bad("insertvalue") };
                        st.regs[base + i.dst as usize] = r;
                    }
                    In::Select(t, c, a, b, vc) => {
                        let c = g!(c).clone();
                        let r = if *vc {
                            let (Val::A(cl), Val::A(x), Val::A(y)) = (&c, g!(a).clone(), g!(b).clone()) else { return bad("vector select") };
                            let Ty::Vec(_, et) = t else { return bad("vector select") };
                            let w = et.bits();
                            let mut o = vec![];
                            for k in 0..cl.len() { o.push(match &cl[k] { Val::I(1) => x[k].clone(), Val::I(_) => y[k].clone(), Val::S(e) => { let p = self.to_e(&x[k], w); let q = self.to_e(&y[k], w); let r = self.x.ite(*e, p, q); self.of_e(r) } _ => return bad("vector select") }); }
                            Val::A(Rc::new(o))
                        } else {
                            match c {
                                Val::I(1) => g!(a).clone(), Val::I(_) => g!(b).clone(),
                                Val::S(e) => {
                                    let e = self.dsimp(&st.path, e);
                                    let (x, y) = (g!(a).clone(), g!(b).clone());
                                    if let Some(k) = self.x.as_const(e) { if k == 1 { x } else { y } }
                                    else if let (Val::I(p), Val::I(q)) = (&x, &y) { if p == q { x } else if matches!(t, Ty::Int(w) if *w <= 32) { let w = t.bits(); let p = self.to_e(&x, w); let q = self.to_e(&y, w); let r = self.x.ite(e, p, q); self.of_e(r) } else { st.frames.last_mut().unwrap().pc = pc as u32; if self.branch(st, e)? { x } else { y } } }
                                    else if matches!(t, Ty::Int(w) if *w <= 32) { let w = t.bits(); let p = self.to_e(&x, w); let q = self.to_e(&y, w); let r = self.x.ite(e, p, q); self.of_e(r) }
                                    else { st.frames.last_mut().unwrap().pc = pc as u32; if self.branch(st, e)? { x } else { y } }
                                }
                                _ => return bad("select"),
                            }
                        };
                        st.regs[base + i.dst as usize] = r;
                    }
                    In::Copy(v) => { let v = g!(v).clone(); st.regs[base + i.dst as usize] = v; }
                    In::Br(b) => { let b = *b; self.goto(st, b); break; }
                    In::CondBr(c, a, b) => {
                        let (a, b) = (*a, *b);
                        let t = match g!(c) { Val::I(x) => *x == 1, Val::S(e) => { let e = *e; st.frames.last_mut().unwrap().pc = pc as u32; self.branch(st, e)? } _ => return bad("br") };
                        self.goto(st, if t { a } else { b });
                        break;
                    }
                    In::Switch(t, v, d, cs) => {
                        let v = g!(v).clone();
                        let target = match &v {
                            Val::I(_) | Val::W(_) => { let u = Self::as_u(&v).unwrap(); cs.iter().find(|c| c.0 == u).map_or(*d, |c| c.1) }
                            Val::S(e) => {
                                st.frames.last_mut().unwrap().pc = pc as u32;
                                let e = self.dval(&st.path, *e);
                                if let Some(u) = self.x.as_const(e) { cs.iter().find(|c| c.0 == u).map_or(*d, |c| c.1) } else {
                                let w = t.bits();
                                // group by target
                                let mut tg: Vec<(u32, E)> = vec![];
                                let mut any = self.x.ff();
                                for (k, l) in cs {
                                    let kc = self.x.cnst(*k, w);
                                    let c = self.x.bin(Op::Eq, e, kc);
                                    let c = self.dsimp(&st.path, c);
                                    if self.x.as_const(c) == Some(0) { continue; }
                                    any = self.x.bin(Op::Or, any, c);
                                    if let Some(q) = tg.iter_mut().find(|q| q.0 == *l) { q.1 = self.x.bin(Op::Or, q.1, c); } else { tg.push((*l, c)); }
                                }
                                let none = self.x.not(any);
                                if let Some(q) = tg.iter_mut().find(|q| q.0 == *d) { q.1 = self.x.bin(Op::Or, q.1, none); } else { tg.push((*d, none)); }
                                let mut keep = vec![];
                                for (l, c) in tg { let c = self.dsimp(&st.path, c); if self.x.as_const(c) != Some(0) { keep.push((l, c)); } }
                                if keep.is_empty() { return bad("switch: no feasible target"); }
                                if keep.len() == 1 { keep[0].0 } else {
                                let cs2: Vec<E> = keep.iter().map(|q| q.1).collect();
                                let k = self.choose(st, &cs2)?;
                                keep[k].0 } }
                            }
                            _ => return bad("switch"),
                        };
                        self.goto(st, target);
                        break;
                    }
                    In::Ret(v) => {
                        let v = v.as_ref().map(|o| g!(o).clone());
                        if self.ret(st, v) { return Ok(()); }
                        break;
                    }
                    In::Unreachable => return Err(End::Viol(format!("unreachable executed in {}", f.name))),
                    In::Call { callee, args, atys, ret, invoke } => {
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        if st.icount > max { return bad("instruction limit"); }
                        let vals: Vec<Val> = args.iter().map(|o| g!(o).clone()).collect();
                        match callee {
                            Callee::Fn(id) => { self.call(st, *id, vals, i.dst, *invoke)?; }
                            Callee::Ind(o) => {
                                let p = g!(o).clone();
                                let a = self.conc(st, &p)?;
                                let ix = a.wrapping_sub(FNS) / 16;
                                if a < FNS || a % 16 != 0 { return Err(End::Viol(format!("indirect call to {a:#x}"))); }
                                if (ix as usize) < self.m.fns.len() { self.call(st, ix as u32, vals, i.dst, *invoke)?; }
                                else { let n = self.m.ext[ix as usize - self.m.fns.len()].clone(); let r = self.external(st, &n, &vals, atys, ret)?; self.finish_call(st, i.dst, *invoke, r); }
                            }
                            Callee::Intr(n) => {
                                let n = n.clone();
                                let r = self.intrinsic(st, &n, &vals, atys, ret)?;
                                self.finish_call(st, i.dst, *invoke, r);
                            }
                            Callee::Ext(n) => {
                                let n = n.clone();
                                let r = self.external(st, &n, &vals, atys, ret)?;
                                self.finish_call(st, i.dst, *invoke, r);
                            }
                            Callee::Asm(s) => { if s.is_empty() || (s.starts_with("/*") && s.ends_with("*/")) { let r = vals.first().cloned(); self.finish_call(st, i.dst, *invoke, r); } else { return bad(format!("inline asm {s}")); } }
                        }
                        break;
                    }
                    In::Rmw(k, t, p, v) => {
                        let (p, v) = (g!(p).clone(), g!(v).clone());
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let a = self.conc(st, &p)?;
                        let old = self.load(st, t, a)?;
                        let new = match &**k { "add" => self.bin1(st, BinK::Add, t, &old, &v)?, "sub" => self.bin1(st, BinK::Sub, t, &old, &v)?, "and" => self.bin1(st, BinK::And, t, &old, &v)?, "or" => self.bin1(st, BinK::Or, t, &old, &v)?, "xor" => self.bin1(st, BinK::Xor, t, &old, &v)?, "xchg" => v, _ => return bad(format!("atomicrmw {k}")) };
                        self.store(st, t, &new, a)?;
                        st.regs[base + i.dst as usize] = old;
                    }
                    In::CmpXchg(t, p, x, y) => {
                        let (p, x, y) = (g!(p).clone(), g!(x).clone(), g!(y).clone());
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let a = self.conc(st, &p)?;
                        let old = self.load(st, t, a)?;
                        let (Some(o), Some(e)) = (Self::as_u(&old), Self::as_u(&x)) else { return bad("symbolic cmpxchg") };
                        if o == e { self.store(st, t, &y, a)?; }
                        st.regs[base + i.dst as usize] = Val::A(Rc::new(vec![old, Val::I((o == e) as u64)]));
                    }
                    In::FNeg(t, v) => { let v = g!(v).clone(); let x = self.conc(st, &v)?; st.regs[base + i.dst as usize] = Val::I(if t.bits() == 32 { x ^ 0x8000_0000 } else { x ^ (1 << 63) }); }
                    In::Fcmp(p, t, a, b) => {
                        let (a, b) = (g!(a).clone(), g!(b).clone());
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let (x, y) = (self.conc(st, &a)?, self.conc(st, &b)?);
                        let (x, y) = if t.bits() == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                        let un = x.is_nan() || y.is_nan();
                        let r = match &**p { "oeq" => x == y, "one" => !un && x != y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "une" => x != y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "true" => true, _ => false };
                        st.regs[base + i.dst as usize] = Val::I(r as u64);
                    }
                    In::ExtractElem(v, ix) => { let v = g!(v).clone(); let ixv = g!(ix).clone(); st.frames.last_mut().unwrap().pc = pc as u32; let k = self.conc(st, &ixv)?; let Val::A(l) = &v else { return bad("extractelement") }; st.regs[base + i.dst as usize] = l[k as usize].clone(); }
                    In::InsertElem(v, x, ix) => { let v = g!(v).clone(); let x = g!(x).clone(); let ixv = g!(ix).clone(); st.frames.last_mut().unwrap().pc = pc as u32; let k = self.conc(st, &ixv)?; let Val::A(mut l) = v else { return bad("insertelement") }; Rc::make_mut(&mut l)[k as usize] = x; st.regs[base + i.dst as usize] = Val::A(l); }
                    In::Shuffle(n, a, b, ix) => {
                        let (Val::A(x), Val::A(y)) = (g!(a).clone(), g!(b).clone()) else { return bad("shuffle") };
                        let n = *n as usize;
                        let o = ix.iter().map(|k| match k { None => Val::I(0), Some(k) => { let k = *k as usize; if k < n { x[k].clone() } else { y[k - n].clone() } } }).collect();
                        st.regs[base + i.dst as usize] = Val::A(Rc::new(o));
                    }
                    In::Nop => {}
                    In::Bad(s) => return bad(format!("unsupported IR in {}: {}", f.name, s)),
                }
                pc += 1;
            }
            if st.icount > max { return bad("instruction limit"); }
        }
    }

    pub fn call(&mut self, st: &mut State, id: u32, args: Vec<Val>, dst: u32, inv: Option<u32>) -> X<()> {
        if let Some(h) = self.hooks[id as usize] {
            let r = self.hook(st, h, id, &args)?;
            self.finish_call(st, dst, inv, r);
            return Ok(());
        }
        // what is hashed is decided byte by byte first: solving for preimages of a hash is hopeless
        if self.hasher[id as usize] && args.len() >= 3 {
            let (p, n) = (self.conc(st, &args[1])?, self.conc(st, &args[2])?);
            let mut vals = vec![];
            for a in p..p + n { let (_, e) = flt(st.mem.byte(a))?; if e != 0 { vals.push((a, self.concretize(st, e)?)); } }
            for (a, v) in vals { flt(st.mem.put(a, v as u8, 0))?; }
        }
        if st.frames.len() > 60000 { return Err(End::Viol("stack overflow (call depth)".into())); }
        let f = self.func(id)?;
        if self.prof { *self.profc.entry(id).or_insert(0) += 1; }
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + f.nregs as usize, Val::I(0));
        for (k, v) in f.params.iter().zip(args) { st.regs[base as usize + *k as usize] = v; }
        let sp = st.sp;
        st.sp -= 64; // return address, saved registers
        st.frames.push(Frame { f, blk: 0, pc: 0, base, sp, dst, inv });
        Ok(())
    }
}
