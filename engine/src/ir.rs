//! Textual LLVM IR reader: module index (globals, functions) and lazily parsed function bodies.
use crate::mem::{FNS, GLOB};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let s = (*w as u64 + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => { let mut o = 0; for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u32 * t.bits(), _ => (self.size() * 8) as u32 } }
    pub fn field(&self, i: usize) -> (Ty, u64) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => ((**t).clone(), i as u64 * t.size()),
            Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { return (t.clone(), o); } o += t.size(); } panic!("field") }
            t => panic!("field of {:?}", t),
        }
    }
    pub fn nfields(&self) -> usize { match self { Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Val { I(u64), S(u32), W(Rc<u128>), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(Rc<str>), Intr(Rc<str>), Ind(Opd), Asm(Rc<str>) }

#[derive(Clone, Debug)]
pub enum In {
    Bin(BinK, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(Rc<str>, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(CastK, Ty, Ty, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, u64, Option<Opd>),
    Call { callee: Callee, args: Vec<Opd>, atys: Vec<Ty>, ret: Ty, invoke: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    Select(Ty, Opd, Opd, Opd, bool),
    Copy(Opd),
    Rmw(Rc<str>, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd),
    Shuffle(u64, Opd, Opd, Vec<Option<u32>>),
    Bad(Rc<str>),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub op: In }
pub const NODST: u32 = u32::MAX;

pub struct Block { pub insts: Vec<Inst>, pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub edges: HashMap<u32, Vec<(u32, Opd)>> }
pub struct Func { pub id: u32, pub name: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block> }

pub struct FnDef { pub name: String, pub start: usize, pub end: usize } // byte range of text including the define line
pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnDef>,
    pub fn_ix: HashMap<String, u32>,
    pub ext: Vec<String>,            // declared functions; address FNS + (fns.len()+i)*16
    pub ext_ix: HashMap<String, u32>,
    pub glob: HashMap<String, u64>,
    pub aliases: HashMap<String, String>,
    pub img: Vec<u8>,
    pub named: HashMap<String, String>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> { W(&'a str), L(&'a str), G(&'a str), M(&'a str), S(&'a str), CS(&'a str), P(u8), NL, EOF }

pub struct Lx<'a> { s: &'a [u8], t: &'a str, p: usize, peek: Option<(T<'a>, usize)> }
fn wordc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+' }
impl<'a> Lx<'a> {
    pub fn new(t: &'a str) -> Lx<'a> { Lx { s: t.as_bytes(), t, p: 0, peek: None } }
    fn raw(&mut self) -> T<'a> {
        let s = self.s;
        loop {
            if self.p >= s.len() { return T::EOF; }
            let c = s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => { self.p += 1; return T::NL; }
                b';' => while self.p < s.len() && s[self.p] != b'\n' { self.p += 1 },
                _ => break,
            }
        }
        let c = s[self.p];
        let b = self.p;
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let st = self.p;
                let name;
                if self.p < s.len() && s[self.p] == b'"' {
                    self.p += 1;
                    let q = self.p;
                    while s[self.p] != b'"' { self.p += 1; }
                    name = &self.t[q..self.p];
                    self.p += 1;
                } else { while self.p < s.len() && wordc(s[self.p]) { self.p += 1; } name = &self.t[st..self.p]; }
                if c == b'%' { T::L(name) } else { T::G(name) }
            }
            b'!' | b'#' => { self.p += 1; while self.p < s.len() && wordc(s[self.p]) { self.p += 1; } T::M(&self.t[b..self.p]) }
            b'"' => { self.p += 1; let q = self.p; while s[self.p] != b'"' { self.p += 1; } let r = &self.t[q..self.p]; self.p += 1; T::S(r) }
            b'c' if self.p + 1 < s.len() && s[self.p + 1] == b'"' => { self.p += 2; let q = self.p; while s[self.p] != b'"' { self.p += 1; } let r = &self.t[q..self.p]; self.p += 1; T::CS(r) }
            _ if wordc(c) => { while self.p < s.len() && wordc(s[self.p]) { self.p += 1; } T::W(&self.t[b..self.p]) }
            _ => { self.p += 1; T::P(c) }
        }
    }
    pub fn next(&mut self) -> T<'a> { if let Some((t, p)) = self.peek.take() { self.p = p; return t; } self.raw() }
    pub fn pk(&mut self) -> T<'a> { if let Some((t, _)) = self.peek { return t; } let s = self.p; let t = self.raw(); let e = self.p; self.p = s; self.peek = Some((t, e)); t }
    pub fn eat(&mut self, c: u8) -> bool { if self.pk() == T::P(c) { self.next(); true } else { false } }
    pub fn eatw(&mut self, w: &str) -> bool { if self.pk() == T::W(w) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: u8) -> R<()> { let t = self.next(); if t == T::P(c) { Ok(()) } else { Err(format!("expected {:?} got {:?}", c as char, t)) } }
    pub fn skip_nl(&mut self) { while self.pk() == T::NL { self.next(); } }
    pub fn eol(&mut self) { loop { match self.next() { T::NL | T::EOF => return, _ => {} } } }
    pub fn balanced(&mut self) { // after '(' consumed
        let mut d = 1;
        loop { match self.next() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { return; } } T::EOF => return, _ => {} } }
    }
}
pub type R<X> = Result<X, String>;

pub struct Px<'a, 'm> { pub lx: Lx<'a>, m: &'m Module, regs: HashMap<&'a str, u32>, blks: HashMap<&'a str, u32> }

fn isty(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "token" | "x86_fp80" | "opaque")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn isval(w: &str) -> bool {
    matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "dso_local_equivalent" | "splat")
        || w.as_bytes()[0].is_ascii_digit() || (w.as_bytes()[0] == b'-' && w.len() > 1)
}

impl<'a, 'm> Px<'a, 'm> {
    pub fn new(t: &'a str, m: &'m Module) -> Px<'a, 'm> { Px { lx: Lx::new(t), m, regs: HashMap::new(), blks: HashMap::new() } }
    fn reg(&mut self, n: &'a str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn blk(&mut self, n: &'a str) -> u32 { let k = self.blks.len() as u32; *self.blks.entry(n).or_insert(k) }

    pub fn ty(&mut self) -> R<Ty> {
        match self.lx.next() {
            T::W(w) => Ok(match w {
                "void" => Ty::Void, "ptr" => { if self.lx.eatw("addrspace") { self.lx.expect(b'(')?; self.lx.balanced(); } Ty::Ptr } "float" => Ty::F32, "double" => Ty::F64,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            }),
            T::P(b'[') => { let n = self.num_u64()?; self.lx.next(); let t = self.ty()?; self.lx.expect(b']')?; Ok(Ty::Arr(n, Rc::new(t))) }
            T::P(b'{') => { let f = self.tylist(b'}')?; Ok(Ty::Struct(Rc::new(f), false)) }
            T::P(b'<') => {
                if self.lx.eat(b'{') { let f = self.tylist(b'}')?; self.lx.expect(b'>')?; return Ok(Ty::Struct(Rc::new(f), true)); }
                let n = self.num_u64()?; self.lx.next(); let t = self.ty()?; self.lx.expect(b'>')?; Ok(Ty::Vec(n, Rc::new(t)))
            }
            T::L(n) => { let d = self.m.named.get(n).ok_or(format!("unknown type {n}"))?; let mut p = Px::new(d, self.m); p.ty() }
            t => Err(format!("type expected, got {:?}", t)),
        }
    }
    fn tylist(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.lx.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.lx.eat(end) { return Ok(v); } self.lx.expect(b',')?; }
    }
    fn num_u64(&mut self) -> R<u64> { match self.lx.next() { T::W(w) => w.parse().map_err(|_| format!("number {w}")), t => Err(format!("number {:?}", t)) } }

    fn int(&self, w: &str, bits: u32) -> R<Val> {
        let v: u128 = if let Some(r) = w.strip_prefix('-') { (r.parse::<u128>().map_err(|_| format!("int {w}"))?).wrapping_neg() } else { w.parse::<u128>().map_err(|_| format!("int {w}"))? };
        let v = if bits < 128 { v & ((1u128 << bits) - 1) } else { v };
        Ok(if bits <= 64 { Val::I(v as u64) } else { Val::W(Rc::new(v)) })
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => { let n = t.nfields(); Val::A(Rc::new((0..n).map(|i| Self::zero(&t.field(i).0)).collect())) }
            _ => Val::I(0),
        }
    }
    /// value of the given type
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        match self.lx.pk() { T::L(n) => { self.lx.next(); return Ok(Opd::R(self.reg(n))); } _ => {} }
        Ok(Opd::C(self.cval(ty)?))
    }
    fn sym(&self, n: &str) -> R<u64> { self.m.addr(n).ok_or_else(|| format!("unknown symbol @{n}")) }
    pub fn cval(&mut self, ty: &Ty) -> R<Val> {
        match self.lx.next() {
            T::G(n) => Ok(Val::I(self.sym(n)?)),
            T::CS(s) => { let b = unesc(s); Ok(Val::A(Rc::new(b.into_iter().map(|c| Val::I(c as u64)).collect()))) }
            T::W(w) => match w {
                "null" | "none" => Ok(Val::I(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(ty)),
                "true" => Ok(Val::I(1)), "false" => Ok(Val::I(0)),
                "dso_local_equivalent" => self.cval(ty),
                "splat" => { self.lx.expect(b'(')?; let t = self.ty()?; let v = self.cval(&t)?; self.lx.expect(b')')?; Ok(Val::A(Rc::new(vec![v; ty.nfields()]))) }
                "getelementptr" => {
                    loop { match self.lx.pk() { T::P(b'(') => break, T::W("inrange") => { self.lx.next(); if self.lx.eat(b'(') { self.lx.balanced(); } } _ => { self.lx.next(); } } }
                    self.lx.expect(b'(')?;
                    let t = self.ty()?; self.lx.expect(b',')?;
                    let pt = self.ty()?; let base = self.cval(&pt)?;
                    let mut off: i64 = 0; let mut cur = t; let mut first = true;
                    while self.lx.eat(b',') {
                        let it = self.ty()?; let v = self.cval(&it)?;
                        let Val::I(i) = v else { return Err("gep idx".into()) };
                        let i = sxt(i, it.bits());
                        if first { off = off.wrapping_add(i.wrapping_mul(cur.size() as i64)); first = false; }
                        else { let (f, o) = match &cur { Ty::Arr(_, t) => ((**t).clone(), i.wrapping_mul(t.size() as i64)), c => { let (f, o) = c.field(i as usize); (f, o as i64) } }; off = off.wrapping_add(o); cur = f; }
                    }
                    self.lx.expect(b')')?;
                    let Val::I(b) = base else { return Err("gep base".into()) };
                    Ok(Val::I(b.wrapping_add(off as u64)))
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                    while let T::W(_) = self.lx.pk() { self.lx.next(); }
                    self.lx.expect(b'(')?; let t = self.ty()?; let v = self.cval(&t)?; self.lx.next(); let to = self.ty()?; self.lx.expect(b')')?;
                    let Val::I(x) = v else { return Err("const cast".into()) };
                    Ok(Val::I(trunc(x, to.bits())))
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while let T::W(_) = self.lx.pk() { self.lx.next(); }
                    self.lx.expect(b'(')?; let t = self.ty()?; let a = self.cval(&t)?; self.lx.expect(b',')?; let t2 = self.ty()?; let b = self.cval(&t2)?; self.lx.expect(b')')?;
                    let (Val::I(a), Val::I(b)) = (a, b) else { return Err("const expr".into()) };
                    let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a << (b & 63) };
                    Ok(Val::I(trunc(r, t.bits())))
                }
                _ => match ty {
                    Ty::F32 | Ty::F64 => Ok(Val::I(fparse(w, *ty == Ty::F32)?)),
                    _ => self.int(w, ty.bits()),
                },
            },
            T::P(b'[') => self.agg(b']'),
            T::P(b'{') => self.agg(b'}'),
            T::P(b'<') => { if self.lx.eat(b'{') { let r = self.agg(b'}')?; self.lx.expect(b'>')?; Ok(r) } else { self.agg(b'>') } }
            t => Err(format!("constant expected, got {:?}", t)),
        }
    }
    fn agg(&mut self, end: u8) -> R<Val> {
        let mut v = vec![];
        if self.lx.eat(end) { return Ok(Val::A(Rc::new(v))); }
        loop { let t = self.ty()?; v.push(self.cval(&t)?); if self.lx.eat(end) { return Ok(Val::A(Rc::new(v))); } self.lx.expect(b',')?; }
    }
    fn attrs(&mut self) {
        loop {
            match self.lx.pk() {
                T::W(w) => {
                    if isval(w) { return; }
                    self.lx.next();
                    if w == "align" { if let T::W(_) = self.lx.pk() { self.lx.next(); } }
                    if self.lx.pk() == T::P(b'(') { self.lx.next(); self.lx.balanced(); }
                }
                T::S(_) => { self.lx.next(); if self.lx.eat(b'=') { self.lx.next(); } }
                _ => return,
            }
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> { let t = self.ty()?; let v = self.val(&t)?; Ok((t, v)) }
    /// skip words until a type starts
    fn to_type(&mut self) {
        loop {
            match self.lx.pk() {
                T::W(w) if isty(w) => return,
                T::W(w) => { self.lx.next(); if w == "align" { if let T::W(_) = self.lx.pk() { self.lx.next(); } } if self.lx.pk() == T::P(b'(') { self.lx.next(); self.lx.balanced(); } }
                T::S(_) => { self.lx.next(); if self.lx.eat(b'=') { self.lx.next(); } }
                _ => return,
            }
        }
    }

    pub fn func(mut self, id: u32, name: &str) -> R<Func> {
        // define line: ... @name(params) ... {
        loop { match self.lx.next() { T::G(_) => break, T::EOF => return Err("no name".into()), _ => {} } }
        self.lx.expect(b'(')?;
        let mut params = vec![];
        let mut anon = 0;
        if !self.lx.eat(b')') {
            loop {
                if self.lx.pk() == T::P(b'.') || matches!(self.lx.pk(), T::W("...")) { self.lx.next(); if self.lx.eat(b')') { break; } continue; }
                let _t = self.ty()?;
                loop { match self.lx.pk() { T::L(_) | T::P(b',') | T::P(b')') => break, T::P(b'(') => { self.lx.next(); self.lx.balanced(); } _ => { self.lx.next(); } } }
                if let T::L(n) = self.lx.pk() { self.lx.next(); if n.bytes().all(|c| c.is_ascii_digit()) { anon += 1; } let r = self.reg(n); params.push(r); } else { return Err("unnamed param".into()); }
                if self.lx.eat(b')') { break; }
                self.lx.expect(b',')?;
            }
        }
        self.lx.eol();
        let mut order: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mk = || Block { insts: vec![], phis: vec![], edges: HashMap::new() };
        loop {
            match self.lx.pk() {
                T::NL => { self.lx.next(); continue; }
                T::EOF => break,
                T::P(b'}') => break,
                T::M(_) => { self.lx.eol(); continue; } // #dbg records
                _ => {}
            }
            // label?
            let save = (self.lx.p, self.lx.peek);
            let lab = match self.lx.next() { T::W(w) => Some(w), T::S(w) => Some(w), _ => None };
            if let Some(w) = lab { if self.lx.pk() == T::P(b':') {
                self.lx.eol();
                if let Some(b) = cur.take() { order.push(b); }
                let i = self.blk(w);
                cur = Some((i, mk()));
                continue;
            } }
            self.lx.p = save.0; self.lx.peek = save.1;
            if cur.is_none() { let i = self.blk(Box::leak(format!("{anon}").into_boxed_str())); cur = Some((i, mk())); }
            let startp = self.lx.p;
            let dst;
            if let T::L(n) = self.lx.pk() { self.lx.next(); self.lx.expect(b'=')?; dst = self.reg(n); } else { dst = NODST; }
            let T::W(opw) = self.lx.next() else { return Err(format!("opcode: {}", &self.lx.t[startp..(startp + 80).min(self.lx.t.len())])) };
            if opw == "phi" {
                while let T::W(w) = self.lx.pk() { if isty(w) { break; } self.lx.next(); }
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.lx.expect(b'[')?;
                    let v = self.val(&t)?; self.lx.expect(b',')?;
                    let T::L(b) = self.lx.next() else { return Err("phi".into()) };
                    let b = self.blk(b);
                    inc.push((b, v));
                    self.lx.expect(b']')?;
                    if !self.lx.eat(b',') { break; }
                    if let T::M(_) = self.lx.pk() { break; }
                }
                self.lx.eol();
                cur.as_mut().unwrap().1.phis.push((dst, inc));
                continue;
            }
            let op = match self.inst(opw) {
                Ok(o) => o,
                Err(e) => { let mut q = startp; while q < self.lx.s.len() && self.lx.s[q] != b'\n' { q += 1; } In::Bad(format!("{} in: {}", e, &self.lx.t[startp..q.min(startp + 300)]).into()) }
            };
            self.lx.eol();
            if let In::Nop = op { continue; }
            cur.as_mut().unwrap().1.insts.push(Inst { dst, op });
        }
        if let Some(b) = cur.take() { order.push(b); }
        // block numbering: position by id
        let n = self.blks.len();
        let entry = order[0].0;
        let mut blocks: Vec<Block> = (0..n).map(|_| mk()).collect();
        for (i, b) in order { blocks[i as usize] = b; }
        // entry must be block 0
        if entry != 0 { return Err("entry block not first".into()); }
        for b in blocks.iter_mut() {
            let phis = std::mem::take(&mut b.phis);
            for (d, inc) in &phis { for (from, v) in inc { b.edges.entry(*from).or_default().push((*d, v.clone())); } }
            b.phis = phis;
        }
        Ok(Func { id, name: name.to_string(), params, nregs: self.regs.len() as u32, blocks })
    }

    fn label(&mut self) -> R<u32> {
        if !self.lx.eatw("label") { return Err(format!("label expected {:?}", self.lx.pk())); }
        let T::L(n) = self.lx.next() else { return Err("label".into()) };
        Ok(self.blk(n))
    }

    fn inst(&mut self, op: &str) -> R<In> {
        Ok(match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::W(w) = self.lx.pk() { if isty(w) { break; } self.lx.next(); }
                let k = match op { "add" => BinK::Add, "sub" => BinK::Sub, "mul" => BinK::Mul, "udiv" => BinK::UDiv, "sdiv" => BinK::SDiv, "urem" => BinK::URem, "srem" => BinK::SRem, "and" => BinK::And, "or" => BinK::Or, "xor" => BinK::Xor, "shl" => BinK::Shl, "lshr" => BinK::LShr, "ashr" => BinK::AShr, "fadd" => BinK::FAdd, "fsub" => BinK::FSub, "fmul" => BinK::FMul, "fdiv" => BinK::FDiv, _ => BinK::FRem };
                let t = self.ty()?; let a = self.val(&t)?; self.lx.expect(b',')?; let b = self.val(&t)?;
                In::Bin(k, t, a, b)
            }
            "fneg" => { while let T::W(w) = self.lx.pk() { if isty(w) { break; } self.lx.next(); } let (t, v) = self.tyval()?; In::FNeg(t, v) }
            "icmp" => {
                self.lx.eatw("samesign");
                let T::W(p) = self.lx.next() else { return Err("icmp".into()) };
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err(format!("pred {p}")) };
                let t = self.ty()?; let a = self.val(&t)?; self.lx.expect(b',')?; let b = self.val(&t)?;
                In::Icmp(p, t, a, b)
            }
            "fcmp" => {
                let mut p = "";
                while let T::W(w) = self.lx.pk() { if isty(w) { break; } p = w; self.lx.next(); }
                let t = self.ty()?; let a = self.val(&t)?; self.lx.expect(b',')?; let b = self.val(&t)?;
                In::Fcmp(p.into(), t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
                let k = match op { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt, "inttoptr" => CastK::IntToPtr, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fptrunc" => CastK::FpTrunc, "fpext" => CastK::FpExt, _ => CastK::Bitcast };
                while let T::W(w) = self.lx.pk() { if isty(w) { break; } self.lx.next(); }
                let (t, v) = self.tyval()?;
                if !self.lx.eatw("to") { return Err("cast to".into()); }
                let to = self.ty()?;
                In::Cast(k, t, to, v)
            }
            "getelementptr" => {
                loop { match self.lx.pk() { T::W(w) if isty(w) => break, T::W("inrange") => { self.lx.next(); if self.lx.eat(b'(') { self.lx.balanced(); } } T::W(_) => { self.lx.next(); } _ => break } }
                let t = self.ty()?; self.lx.expect(b',')?;
                let (_pt, base) = self.tyval()?;
                let mut off = 0i64; let mut dynv = vec![]; let mut cur = t; let mut first = true;
                while self.lx.eat(b',') {
                    if let T::M(_) = self.lx.pk() { break; }
                    let (it, v) = self.tyval()?;
                    let (scale, next): (i64, Ty) = if first { (cur.size() as i64, cur.clone()) } else { match &cur {
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() as i64, (**t).clone()),
                        Ty::Struct(..) => { let Opd::C(Val::I(i)) = v else { return Err("gep struct idx".into()) }; let (f, o) = cur.field(i as usize); off += o as i64; cur = f; continue; }
                        _ => return Err("gep".into()),
                    } };
                    first = false;
                    match v { Opd::C(Val::I(i)) => off = off.wrapping_add(sxt(i, it.bits()).wrapping_mul(scale)), Opd::R(_) => dynv.push((v, it.bits(), scale)), _ => return Err("gep idx".into()) }
                    cur = next;
                }
                In::Gep(base, off, dynv)
            }
            "load" => { while let T::W("atomic" | "volatile") = self.lx.pk() { self.lx.next(); } let t = self.ty()?; self.lx.expect(b',')?; let (_, p) = self.tyval()?; In::Load(t, p) }
            "store" => { while let T::W("atomic" | "volatile") = self.lx.pk() { self.lx.next(); } let (t, v) = self.tyval()?; self.lx.expect(b',')?; let (_, p) = self.tyval()?; In::Store(t, v, p) }
            "alloca" => {
                self.lx.eatw("inalloca");
                let t = self.ty()?;
                let mut n = None; let mut al = t.align();
                while self.lx.eat(b',') {
                    match self.lx.pk() {
                        T::W("align") => { self.lx.next(); al = self.num_u64()?; }
                        T::W(w) if isty(w) => { let (_, v) = self.tyval()?; n = Some(v); }
                        _ => break,
                    }
                }
                let sz = t.size();
                match n { Some(Opd::C(Val::I(k))) => In::Alloca(sz * k, al, None), n => In::Alloca(sz, al, n) }
            }
            "br" => {
                if let T::W("label") = self.lx.pk() { In::Br(self.label()?) }
                else { let (_, c) = self.tyval()?; self.lx.expect(b',')?; let a = self.label()?; self.lx.expect(b',')?; let b = self.label()?; In::CondBr(c, a, b) }
            }
            "switch" => {
                let (t, v) = self.tyval()?; self.lx.expect(b',')?; let d = self.label()?;
                self.lx.expect(b'[')?;
                let mut cs = vec![];
                loop {
                    self.lx.skip_nl();
                    if self.lx.eat(b']') { break; }
                    let ct = self.ty()?; let c = self.cval(&ct)?; self.lx.expect(b',')?; let l = self.label()?;
                    let c = match c { Val::I(x) => x as u128, Val::W(x) => *x, _ => return Err("switch".into()) };
                    cs.push((c, l));
                }
                In::Switch(t, v, d, cs)
            }
            "ret" => { if let T::W("void") = self.lx.pk() { In::Ret(None) } else { let (_, v) = self.tyval()?; In::Ret(Some(v)) } }
            "unreachable" => In::Unreachable,
            "resume" => In::Unreachable,
            "extractvalue" => {
                let (_, v) = self.tyval()?; let mut ix = vec![];
                while self.lx.eat(b',') { if let T::M(_) = self.lx.pk() { break; } ix.push(self.num_u64()? as u32); }
                In::ExtractValue(v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?; self.lx.expect(b',')?; let (_, x) = self.tyval()?; let mut ix = vec![];
                while self.lx.eat(b',') { if let T::M(_) = self.lx.pk() { break; } ix.push(self.num_u64()? as u32); }
                In::InsertValue(t, v, x, ix)
            }
            "select" => {
                while let T::W(w) = self.lx.pk() { if isty(w) { break; } self.lx.next(); }
                let (ct, c) = self.tyval()?; self.lx.expect(b',')?; let (t, a) = self.tyval()?; self.lx.expect(b',')?; let (_, b) = self.tyval()?;
                let vc = matches!(ct, Ty::Vec(..));
                In::Select(t, c, a, b, vc)
            }
            "freeze" => { let (_, v) = self.tyval()?; In::Copy(v) }
            "fence" => In::Nop,
            "landingpad" => { self.lx.eol(); loop { self.lx.skip_nl(); match self.lx.pk() { T::W("cleanup" | "catch" | "filter") => { self.lx.eol(); } _ => break } } return Ok(In::Unreachable); }
            "atomicrmw" => {
                self.lx.eatw("volatile");
                let T::W(k) = self.lx.next() else { return Err("rmw".into()) };
                let (_, p) = self.tyval()?; self.lx.expect(b',')?; let (t, v) = self.tyval()?;
                In::Rmw(k.into(), t, p, v)
            }
            "cmpxchg" => {
                while let T::W("weak" | "volatile") = self.lx.pk() { self.lx.next(); }
                let (_, p) = self.tyval()?; self.lx.expect(b',')?; let (t, a) = self.tyval()?; self.lx.expect(b',')?; let (_, b) = self.tyval()?;
                In::CmpXchg(t, p, a, b)
            }
            "extractelement" => { let (_, v) = self.tyval()?; self.lx.expect(b',')?; let (_, i) = self.tyval()?; In::ExtractElem(v, i) }
            "insertelement" => { let (_, v) = self.tyval()?; self.lx.expect(b',')?; let (_, x) = self.tyval()?; self.lx.expect(b',')?; let (_, i) = self.tyval()?; In::InsertElem(v, x, i) }
            "shufflevector" => {
                let (t, a) = self.tyval()?; self.lx.expect(b',')?; let (_, b) = self.tyval()?; self.lx.expect(b',')?;
                let mt = self.ty()?;
                let Ty::Vec(mn, _) = mt else { return Err("shuffle".into()) };
                let n = t.nfields() as u64;
                let mut idx = vec![];
                match self.lx.next() {
                    T::W("zeroinitializer") => idx = vec![Some(0); mn as usize],
                    T::W("poison" | "undef") => idx = vec![None; mn as usize],
                    T::P(b'<') => loop {
                        self.ty()?;
                        match self.lx.next() { T::W("poison" | "undef") => idx.push(None), T::W(w) => idx.push(Some(w.parse::<u32>().map_err(|_| "shuf")?)), _ => return Err("shuf".into()) }
                        if self.lx.eat(b'>') { break; }
                        self.lx.expect(b',')?;
                    },
                    _ => return Err("shuffle mask".into()),
                }
                In::Shuffle(n, a, b, idx)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut o = op;
                if op != "call" && op != "invoke" { let T::W(w) = self.lx.next() else { return Err("call".into()) }; o = w; }
                self.to_type();
                let ret = self.ty()?;
                if self.lx.eat(b'(') { self.lx.balanced(); }
                let callee = match self.lx.next() {
                    T::G(n) => {
                        let n = self.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                        if n.starts_with("llvm.") { Callee::Intr(n.into()) }
                        else if let Some(i) = self.m.fn_ix.get(n) { Callee::Fn(*i) }
                        else { Callee::Ext(n.into()) }
                    }
                    T::L(n) => Callee::Ind(Opd::R(self.reg(n))),
                    T::W("asm") => { while let T::W(_) = self.lx.pk() { self.lx.next(); } let T::S(s) = self.lx.next() else { return Err("asm".into()) }; self.lx.eat(b','); self.lx.next(); Callee::Asm(s.into()) }
                    t => return Err(format!("callee {:?}", t)),
                };
                self.lx.expect(b'(')?;
                let mut args = vec![]; let mut atys = vec![];
                if !self.lx.eat(b')') {
                    loop {
                        if let T::W("metadata") = self.lx.pk() {
                            self.lx.next();
                            let mut d = 0;
                            loop { match self.lx.pk() { T::P(b'(') => { d += 1; } T::P(b')') => { if d == 0 { break; } d -= 1; } T::P(b',') if d == 0 => break, _ => {} } self.lx.next(); }
                            args.push(Opd::C(Val::I(0))); atys.push(Ty::Other);
                        } else {
                            let t = self.ty()?; self.attrs(); let v = self.val(&t)?; args.push(v); atys.push(t);
                        }
                        if self.lx.eat(b')') { break; }
                        self.lx.expect(b',')?;
                    }
                }
                let mut invoke = None;
                if o == "invoke" {
                    loop { match self.lx.pk() { T::W("to") => break, T::EOF => return Err("invoke".into()), _ => { self.lx.next(); } } }
                    self.lx.next();
                    invoke = Some(self.label()?);
                    if !self.lx.eatw("unwind") { return Err("unwind".into()); }
                    let _ = self.label()?;
                }
                if let Callee::Intr(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || &**n == "llvm.x86.sse2.pause" || &**n == "llvm.assume" || &**n == "llvm.donothing" || n.starts_with("llvm.prefetch") {
                        return Ok(if let Some(b) = invoke { In::Br(b) } else { In::Nop });
                    }
                }
                In::Call { callee, args, atys, ret, invoke }
            }
            _ => return Err(format!("opcode {op}")),
        })
    }
}

pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } } else { o.push(b[i]); i += 1; } }
    o
}
pub fn sxt(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn trunc(v: u64, w: u32) -> u64 { if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
fn fparse(w: &str, f32_: bool) -> R<u64> {
    let d = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("fp {w}"))?) }
        else if let Some(h) = w.strip_prefix("f0x") { let b = u64::from_str_radix(h, 16).map_err(|_| format!("fp {w}"))?; return Ok(b); }
        else { w.parse::<f64>().map_err(|_| format!("fp {w}"))? };
    Ok(if f32_ { (d as f32).to_bits() as u64 } else { d.to_bits() })
}

impl Module {
    pub fn addr(&self, n: &str) -> Option<u64> {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(a) = self.glob.get(n) { return Some(*a); }
        if let Some(i) = self.fn_ix.get(n) { return Some(FNS + 16 * *i as u64); }
        if let Some(i) = self.ext_ix.get(n) { return Some(FNS + 16 * (self.fns.len() as u64 + *i as u64)); }
        None
    }
    pub fn load(text: &'static str, weak_null: &[&str]) -> R<Module> {
        let mut m = Module { text, fns: vec![], fn_ix: HashMap::new(), ext: vec![], ext_ix: HashMap::new(), glob: HashMap::new(), aliases: HashMap::new(), img: vec![0; 64], named: HashMap::new() };
        let mut globs: Vec<(String, &'static str)> = vec![]; // name, rest of line after '='
        let b = text.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = memchr(b, p, b'\n');
            let line = &text[p..e];
            if line.starts_with('@') {
                let mut lx = Lx::new(line);
                let T::G(n) = lx.next() else { return Err("global".into()) };
                if lx.next() != T::P(b'=') { return Err("global =".into()); }
                globs.push((n.to_string(), &line[lx.p..]));
            } else if line.starts_with('%') {
                let mut lx = Lx::new(line);
                let T::L(n) = lx.next() else { return Err("type".into()) };
                lx.next(); lx.next();
                m.named.insert(n.to_string(), line[lx.p..].to_string());
            } else if line.starts_with("declare ") {
                let mut lx = Lx::new(line);
                loop { match lx.next() { T::G(n) => { let i = m.ext.len() as u32; m.ext.push(n.to_string()); m.ext_ix.insert(n.to_string(), i); break; } T::EOF => break, _ => {} } }
            } else if line.starts_with("define ") {
                let mut lx = Lx::new(line);
                let name = loop { match lx.next() { T::G(n) => break n, T::EOF => return Err("define".into()), _ => {} } };
                // body end: line "}"
                let mut q = e + 1;
                loop { let f = memchr(b, q, b'\n'); if &b[q..f] == b"}" { q = f; break; } if f >= b.len() { return Err("unterminated".into()); } q = f + 1; }
                let i = m.fns.len() as u32;
                m.fn_ix.insert(name.to_string(), i);
                m.fns.push(FnDef { name: name.to_string(), start: p, end: q });
                p = q + 1;
                continue;
            }
            p = e + 1;
        }
        for w in weak_null { if let Some(i) = m.ext_ix.get(*w) { let _ = i; m.glob.insert(w.to_string(), 0); } }
        // assign addresses
        let mut defs: Vec<(u64, &'static str)> = vec![];
        let mut ext_globs = vec![];
        for (n, rest) in &globs {
            let mut lx = Lx::new(rest);
            let mut ext = false;
            let mut alias = false;
            loop { match lx.next() { T::W("global") | T::W("constant") => break, T::W("alias") => { alias = true; break; } T::W("external") | T::W("extern_weak") => ext = true, T::W(_) => { if lx.pk() == T::P(b'(') { lx.next(); lx.balanced(); } } T::EOF => return Err(format!("global {rest}")), _ => {} } }
            if alias {
                // alias TYPE, ptr @target
                let mut tgt = None;
                loop { match lx.next() { T::G(t) => { tgt = Some(t.to_string()); break; } T::EOF => break, _ => {} } }
                if let Some(t) = tgt { m.aliases.insert(n.clone(), t); }
                continue;
            }
            let r2: &'static str = &rest[lx.p..];
            let mut px = Px::new(r2, &m);
            let t = px.ty()?;
            let mut al = t.align();
            if let Some(i) = r2.rfind(", align ") { let d: String = r2[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(x) = d.parse::<u64>() { al = x; } }
            let al = al.max(1);
            let base = (m.img.len() as u64 + al - 1) / al * al;
            let sz = t.size().max(1);
            m.img.resize((base + sz) as usize, 0);
            m.glob.insert(n.clone(), GLOB + base);
            if ext { ext_globs.push(n.clone()); } else { defs.push((base, r2)); }
        }
        let mut img = std::mem::take(&mut m.img);
        img.resize(img.len() + 64, 0);
        for (base, r2) in defs {
            let mut px = Px::new(r2, &m);
            let t = px.ty()?;
            let v = px.cval(&t).map_err(|e| format!("{e} in global init {}", &r2[..r2.len().min(200)]))?;
            put(&mut img, base as usize, &t, &v);
        }
        m.img = img;
        Ok(m)
    }
    pub fn func(&self, id: u32) -> R<Func> {
        let d = &self.fns[id as usize];
        Px::new(&self.text[d.start..d.end], self).func(id, &d.name)
    }
}
fn memchr(b: &[u8], mut p: usize, c: u8) -> usize { while p < b.len() && b[p] != c { p += 1; } p }
fn put(img: &mut [u8], off: usize, t: &Ty, v: &Val) {
    match v {
        Val::I(x) => { let n = (t.size() as usize).min(8); img[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        Val::W(x) => { let n = (t.size() as usize).min(16); img[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        Val::A(f) => match t {
            Ty::Arr(_, e) if matches!(**e, Ty::Int(8)) => for (i, x) in f.iter().enumerate() { if let Val::I(c) = x { img[off + i] = *c as u8; } },
            _ => for (i, x) in f.iter().enumerate() { let (ft, o) = t.field(i); put(img, off + o as usize, &ft, x); },
        },
        Val::S(_) => unreachable!(),
    }
}
