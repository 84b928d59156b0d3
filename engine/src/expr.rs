//! Hash-consed bit-vector expressions (widths 1..=256) over byte-sized symbolic variables.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Mask = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat, Lookup,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Table { pub base: u64, pub vals: Vec<u64> }

#[derive(Default)]
pub struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<FxHasher>>;

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
    pub tables: Vec<Rc<Table>>,
    tmap: HashMap<(u64, Vec<u64>), u32>,
    /// support: 0 = none, 1+v = single variable v, 0x8000_0000|i = list i
    pub sup: Vec<u32>,
    pub suplists: Vec<Rc<Vec<u16>>>,
    supmap: HashMap<Rc<Vec<u16>>, u32>,
    masks: FxMap<E, Mask>,
    ext_memo: HashMap<(E, u32, u32), E>,
    // evaluation memo
    memo: Vec<u128>,
    stamp: Vec<u32>,
    gen: u32,
}

#[inline]
pub fn maskw(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // w: operand width
    let m = maskw(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sx(a, w); let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((x >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], map: Default::default(), consts: vec![], cmap: HashMap::new(), tables: vec![], tmap: HashMap::new(), ext_memo: HashMap::new(),
            sup: vec![], suplists: vec![], supmap: HashMap::new(), masks: Default::default(), memo: vec![], stamp: vec![], gen: 0 };
        // id 0 is reserved ("no expression")
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
        c.consts.push(0);
        c.sup.push(0);
        c
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn as_const(&self, e: E) -> Option<u128> { let n = self.nodes[e as usize]; if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None } }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let s = match n.op {
            Op::Const => 0,
            Op::Var => 1 + n.a,
            Op::ZExt | Op::SExt | Op::Extract => self.sup[n.a as usize],
            Op::Lookup => self.sup[n.b as usize],
            Op::Ite => { let x = self.join(self.sup[n.a as usize], self.sup[n.b as usize]); self.join(x, self.sup[n.c as usize]) }
            _ => self.join(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, e);
        e
    }
    pub fn suplist(&self, s: u32) -> Vec<u16> {
        if s == 0 { vec![] } else if s & 0x8000_0000 == 0 { vec![(s - 1) as u16] } else { (*self.suplists[(s & 0x7fff_ffff) as usize]).clone() }
    }
    fn join(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let mut l = self.suplist(a);
        for x in self.suplist(b) { if let Err(p) = l.binary_search(&x) { l.insert(p, x) } }
        let l = Rc::new(l);
        if let Some(&i) = self.supmap.get(&l) { return i; }
        let i = 0x8000_0000 | self.suplists.len() as u32;
        self.suplists.push(l.clone());
        self.supmap.insert(l, i);
        i
    }
    /// the only variable the expression depends on
    #[inline] pub fn single(&self, e: E) -> Option<u16> { let s = self.sup[e as usize]; if s != 0 && s & 0x8000_0000 == 0 { Some((s - 1) as u16) } else { None } }
    pub fn vars(&self, e: E) -> Vec<u16> { self.suplist(self.sup[e as usize]) }

    pub fn cnst(&mut self, v: u128, w: u32) -> E {
        let v = v & maskw(w);
        let i = match self.cmap.get(&v) { Some(&i) => i, None => { let i = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, i); i } };
        self.mk(Node { op: Op::Const, w: w as u16, a: i, b: 0, c: 0 })
    }
    pub fn var(&mut self, v: u32) -> E { self.mk(Node { op: Op::Var, w: 8, a: v, b: 0, c: 0 }) }
    pub fn tt(&mut self) -> E { self.cnst(1, 1) }
    pub fn ff(&mut self) -> E { self.cnst(0, 1) }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.cnst(maskw(w), w); self.bin(Op::Xor, a, m) }
    /// logical negation operand if `e` is Xor(x, 1) of width 1
    pub fn is_not(&self, e: E) -> Option<E> { let n = self.n(e); if n.w == 1 && n.op == Op::Xor && self.as_const(n.b) == Some(1) { Some(n.a) } else { None } }

    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        if n.op == Op::Ite { if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) { return Some((n.a, x, y)); } }
        None
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {:?} {:?}", op, self.n(a), self.n(b));
        let rw = match op { Eq | Ult | Ule | Slt | Sle => 1, _ => w };
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { if w <= 128 { let v = fold(op, w, x, y); return self.cnst(v, rw); } }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        let m = maskw(w);
        let na = self.n(a);
        // distribute over constant-armed ite
        if let Some(k) = cb { if w <= 128 {
            if let Some((c, x, y)) = self.ite_consts(a) {
                let (p, q) = (fold(op, w, x, k), fold(op, w, y, k));
                let p = self.cnst(p, rw); let q = self.cnst(q, rw);
                return self.ite(c, p, q);
            }
        } }
        if let Some(k) = ca { if w <= 128 {
            if let Some((c, x, y)) = self.ite_consts(b) {
                let (p, q) = (fold(op, w, k, x), fold(op, w, k, y));
                let p = self.cnst(p, rw); let q = self.cnst(q, rw);
                return self.ite(c, p, q);
            }
        } }
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb { if na.op == Add { if let Some(k2) = self.as_const(na.b) { let c = self.cnst(k.wrapping_add(k2), w); return self.bin(Add, na.a, c); } } }
            }
            Sub => {
                if a == b { return self.cnst(0, w); }
                if let Some(k) = cb { let c = self.cnst((0u128).wrapping_sub(k), w); return self.bin(Add, a, c); }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cnst(k.trailing_zeros() as u128, w); return self.bin(Shl, a, s); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cnst(k.trailing_zeros() as u128, w); return self.bin(LShr, a, s); } }
                if let Some(k) = cb { if na.op == ZExt && k != 0 { let wi = self.w(na.a); if k <= maskw(wi) { let c = self.cnst(k, wi); let q = self.bin(UDiv, na.a, c); return self.zext(q, w); } else { return self.cnst(0, w); } } }
            }
            URem => {
                if cb == Some(1) { return self.cnst(0, w); }
                if let Some(k) = cb { if k.is_power_of_two() { let c = self.cnst(k - 1, w); return self.bin(And, a, c); } }
                if let Some(k) = cb { if na.op == ZExt && k != 0 { let wi = self.w(na.a); if k <= maskw(wi) { let c = self.cnst(k, wi); let q = self.bin(URem, na.a, c); return self.zext(q, w); } else { return a; } } }
            }
            And => {
                if a == b { return a; }
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == m { return a; }
                    match na.op {
                        ZExt => { let wi = self.w(na.a); let c = self.cnst(k, wi); let x = self.bin(And, na.a, c); return self.zext(x, w); }
                        Concat => {
                            let wl = self.w(na.b);
                            let ch = self.cnst(k >> wl, w - wl); let cl = self.cnst(k, wl);
                            let h = self.bin(And, na.a, ch); let l = self.bin(And, na.b, cl);
                            return self.concat(h, l);
                        }
                        And => if let Some(k2) = self.as_const(na.b) { let c = self.cnst(k & k2, w); return self.bin(And, na.a, c); },
                        _ => {}
                    }
                    // contiguous low mask -> zext(extract)
                    if k.wrapping_add(1).is_power_of_two() && k != 0 && w <= 128 {
                        let t = k.count_ones();
                        if t < w && !matches!(na.op, Var) { let x = self.extract(a, 0, t); return self.zext(x, w); }
                    }
                }
                if w == 1 { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.ff(); } }
                if na.op == ZExt && self.n(b).op == ZExt && self.w(na.a) == self.w(self.n(b).a) { let nb = self.n(b); let x = self.bin(And, na.a, nb.a); return self.zext(x, w); }
            }
            Or => {
                if a == b { return a; }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k == m { return b; }
                    match na.op {
                        Concat => {
                            let wl = self.w(na.b);
                            let ch = self.cnst(k >> wl, w - wl); let cl = self.cnst(k, wl);
                            let h = self.bin(Or, na.a, ch); let l = self.bin(Or, na.b, cl);
                            return self.concat(h, l);
                        }
                        ZExt => {
                            let wi = self.w(na.a);
                            let ch = self.cnst(k >> wi, w - wi); let cl = self.cnst(k, wi);
                            let l = self.bin(Or, na.a, cl);
                            return self.concat(ch, l);
                        }
                        _ => {}
                    }
                }
                if w == 1 { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.tt(); } }
                // disjoint concat / zext merging
                if w > 1 { if let Some(r) = self.or_merge(a, b, w) { return r; } }
            }
            Xor => {
                if a == b { return self.cnst(0, w); }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    match na.op {
                        Xor => if let Some(k2) = self.as_const(na.b) { let c = self.cnst(k ^ k2, w); return self.bin(Xor, na.a, c); },
                        Concat => {
                            let wl = self.w(na.b);
                            let ch = self.cnst(k >> wl, w - wl); let cl = self.cnst(k, wl);
                            let h = self.bin(Xor, na.a, ch); let l = self.bin(Xor, na.b, cl);
                            return self.concat(h, l);
                        }
                        ZExt => {
                            let wi = self.w(na.a);
                            let ch = self.cnst(k >> wi, w - wi); let cl = self.cnst(k, wi);
                            let l = self.bin(Xor, na.a, cl);
                            return self.concat(ch, l);
                        }
                        _ => {}
                    }
                    if w == 1 { // not of comparison stays as Xor
                        match na.op {
                            Ult => return self.bin(Ule, na.b, na.a),
                            Ule => return self.bin(Ult, na.b, na.a),
                            Slt => return self.bin(Sle, na.b, na.a),
                            Sle => return self.bin(Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Shl => if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.cnst(0, w); }
                let k = k as u32;
                let l = self.cnst(0, k);
                let h = self.extract(a, 0, w - k);
                return self.concat(h, l);
            },
            LShr => if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.cnst(0, w); }
                let k = k as u32;
                let h = self.extract(a, k, w - k);
                return self.zext(h, w);
            },
            AShr => if let Some(k) = cb {
                if k == 0 { return a; }
                let k = k.min(w as u128 - 1) as u32;
                let h = self.extract(a, k, w - k);
                return self.sext(h, w);
            },
            Eq => {
                if a == b { return self.tt(); }
                if w == 1 { if let Some(k) = cb { return if k == 1 { a } else { self.not(a) }; } }
                if let Some(k) = cb {
                    match na.op {
                        ZExt => { let wi = self.w(na.a); if k > maskw(wi) { return self.ff(); } let c = self.cnst(k, wi); return self.bin(Eq, na.a, c); }
                        SExt => { let wi = self.w(na.a); let lo = k & maskw(wi); if (sx(lo, wi) as u128) & m != k { return self.ff(); } let c = self.cnst(lo, wi); return self.bin(Eq, na.a, c); }
                        Concat => {
                            let wl = self.w(na.b);
                            let ch = self.cnst(k >> wl, w - wl); let cl = self.cnst(k, wl);
                            let l = self.bin(Eq, na.b, cl);
                            if self.as_const(l) == Some(0) { return l; }
                            let h = self.bin(Eq, na.a, ch);
                            return self.bin(And, l, h);
                        }
                        Add => if let Some(k2) = self.as_const(na.b) { let c = self.cnst(k.wrapping_sub(k2), w); return self.bin(Eq, na.a, c); },
                        Xor => if let Some(k2) = self.as_const(na.b) { let c = self.cnst(k ^ k2, w); return self.bin(Eq, na.a, c); },
                        Or => if k == 0 { let z = self.cnst(0, w); let p = self.bin(Eq, na.a, z); let q = self.bin(Eq, na.b, z); return self.bin(And, p, q); },
                        Sub => if k == 0 { return self.bin(Eq, na.a, na.b); },
                        Ite => {
                            // ite(c, K, y) == k
                            if let Some(x) = self.as_const(na.b) { let q = self.bin(Eq, na.c, b); return if x == k { self.bin(Or, na.a, q) } else { let nc = self.not(na.a); self.bin(And, nc, q) }; }
                            if let Some(y) = self.as_const(na.c) { let q = self.bin(Eq, na.b, b); return if y == k { let nc = self.not(na.a); self.bin(Or, nc, q) } else { self.bin(And, na.a, q) }; }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == ZExt && nb.op == ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        if wa == wb { return self.bin(Eq, na.a, nb.a); }
                    }
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let l = self.bin(Eq, na.b, nb.b); if self.as_const(l) == Some(0) { return l; }
                        let h = self.bin(Eq, na.a, nb.a);
                        return self.bin(And, l, h);
                    }
                }
            }
            Ult => {
                if a == b || cb == Some(0) { return self.ff(); }
                if cb == Some(1) { let z = self.cnst(0, w); return self.bin(Eq, a, z); }
                if ca == Some(m) { return self.ff(); }
                if ca == Some(0) { let z = self.cnst(0, w); let e = self.bin(Eq, b, z); return self.not(e); }
                if let Some(k) = cb { if na.op == ZExt { let wi = self.w(na.a); if k > maskw(wi) { return self.tt(); } let c = self.cnst(k, wi); return self.bin(Ult, na.a, c); } }
                if let Some(k) = ca { let nb = self.n(b); if nb.op == ZExt { let wi = self.w(nb.a); if k >= maskw(wi) { return self.ff(); } let c = self.cnst(k, wi); return self.bin(Ult, c, nb.a); } }
                let nb = self.n(b);
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Ult, na.a, nb.a); }
                if w == 1 { let x = self.not(a); return self.bin(And, x, b); }
                if let Some(k) = cb { if na.op == Concat && self.as_const(na.a) == Some(0) { let wl = self.w(na.b); if k > maskw(wl) { return self.tt(); } let c = self.cnst(k, wl); return self.bin(Ult, na.b, c); } }
            }
            Ule => {
                if a == b { return self.tt(); }
                if ca == Some(0) || cb == Some(m) { return self.tt(); }
                if let Some(k) = cb { let c = self.cnst(k + 1, w); return self.bin(Ult, a, c); }
                if let Some(k) = ca { let c = self.cnst(k - 1, w); return self.bin(Ult, c, b); }
                let nb = self.n(b);
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Ule, na.a, nb.a); }
                if w == 1 { let x = self.not(a); return self.bin(Or, x, b); }
            }
            Slt | Sle => {
                if a == b { return self.cnst((op == Sle) as u128, 1); }
                let uop = if op == Slt { Ult } else { Ule };
                let nb = self.n(b);
                let nneg = |n: Node, c: Option<u128>| (n.op == ZExt && w > 1) || c.map_or(false, |k| k >> (w - 1) == 0);
                if nneg(na, ca) && nneg(nb, cb) { return self.bin(uop, a, b); }
                if na.op == ZExt && cb.is_some() { return self.ff(); } // b negative constant
                if nb.op == ZExt && ca.is_some() { return self.tt(); }
                if op == Slt && cb == Some(0) { return self.extract(a, w - 1, 1); }
                if op == Sle { if let Some(k) = cb { let c = self.cnst(k.wrapping_add(1), w); if k != m >> 1 { return self.bin(Slt, a, c); } else { return self.tt(); } } }
                if op == Slt && ca == Some(m) { let s = self.extract(b, w - 1, 1); return self.not(s); }
                if na.op == SExt { if let Some(k) = cb { let wi = self.w(na.a); let lo = k & maskw(wi); if (sx(lo, wi) as u128) & m == k { let c = self.cnst(lo, wi); return self.bin(op, na.a, c); } } }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0 })
    }

    /// Or of two values whose known-nonzero bits do not overlap, as a concatenation
    fn or_merge(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        // b = concat(h, 0_k), a = zext(x) with width(x) <= k
        let tryit = |s: &mut Ctx, x: Node, y: Node| -> Option<E> {
            if y.op == Op::Concat && s.as_const(y.b) == Some(0) {
                let k = s.w(y.b);
                if x.op == Op::ZExt && s.w(x.a) <= k { let l = s.zext(x.a, k); return Some(s.concat(y.a, l)); }
            }
            if y.op == Op::ZExt { // zext(concat(h,0))
                let i = s.n(y.a);
                if i.op == Op::Concat && s.as_const(i.b) == Some(0) {
                    let k = s.w(i.b);
                    if x.op == Op::ZExt && s.w(x.a) <= k { let l = s.zext(x.a, k); let c = s.concat(i.a, l); return Some(s.zext(c, w)); }
                }
            }
            None
        };
        if let Some(r) = tryit(self, na, nb) { return Some(r); }
        tryit(self, nb, na)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if let Some(x) = self.is_not(c) { return self.ite(x, b, a); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.cnst(v, w); }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if let Some((c, x, y)) = self.ite_consts(a) { let p = self.cnst(x, w); let q = self.cnst(y, w); return self.ite(c, p, q); },
            Op::Concat => if self.as_const(n.a) == Some(0) { return self.zext(n.b, w); },
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = sx(self.consts[n.a as usize], wa) as u128; return self.cnst(v, w); }
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite => if let Some((c, x, y)) = self.ite_consts(a) { let p = self.cnst(sx(x, wa) as u128, w); let q = self.cnst(sx(y, wa) as u128, w); return self.ite(c, p, q); },
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa { return a; }
        let n = self.n(a);
        // operands are shared: without the memo this is exponential
        if matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite) || lo == 0 && matches!(n.op, Op::Add | Op::Sub | Op::Mul) {
            if let Some(&r) = self.ext_memo.get(&(a, lo, w)) { return r; }
            let r = self.extract_(a, lo, w);
            self.ext_memo.insert((a, lo, w), r);
            return r;
        }
        self.extract_(a, lo, w)
    }
    fn extract_(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.cnst(v >> lo, w); }
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi { return self.cnst(0, w); }
                if lo + w <= wi { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi { return self.extract(n.a, lo, w); }
                if lo < wi { let x = self.extract(n.a, lo, wi - lo); return self.sext(x, w); }
                let x = self.extract(n.a, wi - 1, 1); return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            Op::Ite => {
                if let Some((c, x, y)) = self.ite_consts(a) { let p = self.cnst(x >> lo, w); let q = self.cnst(y >> lo, w); return self.ite(c, p, q); }
                let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            Op::Lookup if w <= 64 && lo < 64 => {
                let t = self.tables[n.a as usize].clone();
                let vals: Vec<u64> = t.vals.iter().map(|v| ((*v as u128 >> lo) & maskw(w)) as u64).collect();
                return self.lookup(n.b, t.base, vals, w);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (nh, nl) = (self.n(h), self.n(l));
        if w <= 128 { if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.cnst(x << wl | y, w); } }
        if self.as_const(h) == Some(0) { return self.zext(l, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.b + wl == nh.b { return self.extract(nh.a, nl.b, w); }
        // concat(extract(x, wl..), x') where l is the low part as whole expression
        if nh.op == Op::Extract && nl.op != Op::Const {
            // l may itself be a simplified extract of nh.a
            let cand = if nh.b >= wl { let x = self.extract(nh.a, nh.b - wl, wl); x == l } else { false };
            if cand { return self.extract(nh.a, nh.b - wl, w); }
        }
        if nh.op == Op::ZExt { // concat(zext(x), l) = zext(concat(x,l))
            let c = self.concat(nh.a, l); return self.zext(c, w);
        }
        // right-associate: concat(concat(a,b),l) -> keep left structure; merge adjacent extracts / constants
        if nl.op == Op::Concat {
            // concat(h, concat(x, y)): try merging h and x
            if nh.op == Op::Extract && self.n(nl.a).op == Op::Extract { let x = self.n(nl.a); if x.a == nh.a && x.b + self.w(nl.a) == nh.b { let m = self.concat(h, nl.a); return self.concat(m, nl.b); } }
            if nh.op == Op::Const && self.n(nl.a).op == Op::Const && wh + self.w(nl.a) <= 128 { let m = self.concat(h, nl.a); return self.concat(m, nl.b); }
        }
        self.mk(Node { op: Op::Concat, w: w as u16, a: h, b: l, c: 0 })
    }
    /// vals[i] is the result for idx == base + i; idx outside the table is never evaluated on a feasible path
    pub fn lookup(&mut self, idx: E, base: u64, vals: Vec<u64>, w: u32) -> E {
        if vals.iter().all(|v| *v == vals[0]) { return self.cnst(vals[0] as u128, w); }
        if base == 0 && vals.iter().enumerate().all(|(i, v)| i as u64 == *v) {
            let wi = self.w(idx);
            if wi == w { return idx; } else if wi < w { return self.zext(idx, w); }
        }
        let key = (base, vals);
        let t = match self.tmap.get(&key) { Some(&t) => t, None => {
            let t = self.tables.len() as u32;
            self.tables.push(Rc::new(Table { base, vals: key.1.clone() }));
            self.tmap.insert(key, t); t } };
        self.mk(Node { op: Op::Lookup, w: w as u16, a: t, b: idx, c: 0 })
    }

    fn grow_memo(&mut self) { let n = self.nodes.len(); if self.memo.len() < n { self.memo.resize(n + 1024, 0); self.stamp.resize(n + 1024, 0); } }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.grow_memo();
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 { for s in self.stamp.iter_mut() { *s = 0; } self.gen = 1; }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op { Op::Const => return self.consts[n.a as usize], Op::Var => return m[n.a as usize] as u128, _ => {} }
        if self.stamp[e as usize] == self.gen { return self.memo[e as usize]; }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => (sx(self.ev(n.a, m), self.w(n.a)) as u128) & maskw(w),
            Op::Extract => (self.ev(n.a, m) >> n.b) & maskw(w),
            Op::Concat => { let wl = self.w(n.b); if wl >= 128 { self.ev(n.b, m) } else { self.ev(n.a, m) << wl | self.ev(n.b, m) } }
            Op::Lookup => { let i = self.ev(n.b, m) as u64; let t = &self.tables[n.a as usize]; t.vals.get(i.wrapping_sub(t.base) as usize).copied().unwrap_or(0) as u128 }
            op => { let a = self.ev(n.a, m); let b = self.ev(n.b, m); fold(op, self.w(n.a), a, b) }
        };
        self.memo[e as usize] = r;
        self.stamp[e as usize] = self.gen;
        r
    }
    /// evaluate a single-variable expression at value v
    pub fn eval1(&mut self, e: E, var: u16, v: u8) -> u128 {
        let mut m = [0u8; 1024];
        m[var as usize] = v;
        self.eval(e, &m)
    }
    /// truth table of a boolean single-variable expression
    pub fn mask(&mut self, e: E, var: u16) -> Mask {
        if let Some(m) = self.masks.get(&e) { return *m; }
        // fast forms
        let n = self.n(e);
        let mut r = [0u64; 4];
        if let Some(x) = self.is_not(e) { let q = self.mask(x, var); for i in 0..4 { r[i] = !q[i]; } }
        else if n.w == 1 && n.op == Op::And { let p = self.mask_or_const(n.a, var); let q = self.mask_or_const(n.b, var); for i in 0..4 { r[i] = p[i] & q[i]; } }
        else if n.w == 1 && n.op == Op::Or { let p = self.mask_or_const(n.a, var); let q = self.mask_or_const(n.b, var); for i in 0..4 { r[i] = p[i] | q[i]; } }
        else { let mut m = [0u8; 1024]; for v in 0..256usize { m[var as usize] = v as u8; if self.eval(e, &m) & 1 == 1 { r[v >> 6] |= 1 << (v & 63); } } }
        self.masks.insert(e, r);
        r
    }
    fn mask_or_const(&mut self, e: E, var: u16) -> Mask { match self.as_const(e) { Some(0) => [0; 4], Some(_) => [!0; 4], None => self.mask(e, var) } }

    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a)),
            Op::Extract => format!("(ext[{}+{}] {})", n.b, n.w, self.show(n.a)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Op::Lookup => format!("(lookup t{} {})", n.a, self.show(n.b)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}
