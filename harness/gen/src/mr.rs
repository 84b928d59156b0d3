//! A small interpreter for the Rust code the derive macro generates. Anything it does not know ends the path as
//! inconclusive; such paths (like every counterexample) are decided by compiling the template for real, see `check`.
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    Unit, Int(i64), Bool(bool), Char(u32),
    Str(Rc<Vec<u8>>),
    /// output of `safe` and `escape`: displayed as it is
    Safe(Rc<Vec<u8>>),
    Buf(Rc<RefCell<Vec<u8>>>),
    Tup(Rc<Vec<V>>), List(Rc<Vec<V>>),
    Enum(&'static str, Rc<Vec<V>>),
    Obj(Rc<Vec<(&'static str, V)>>),
    Range(i64, i64),
    Item(usize, bool, bool),
}
pub enum Stop { Break, Continue, Err(V), Return(V), Unknown(&'static str) }
pub type Rv = Result<V, Stop>;
fn unk<T>(s: &'static str) -> Result<T, Stop> { Err(Stop::Unknown(s)) }
pub fn vstr(s: &[u8]) -> V { V::Str(Rc::new(s.to_vec())) }

// ---------- values
pub fn display(v: &V, o: &mut Vec<u8>) -> Result<(), Stop> {
    match v {
        V::Int(n) => push_int(*n, o),
        V::Bool(b) => o.extend_from_slice(if *b { b"true" } else { b"false" }),
        V::Char(c) => { let mut t = [0; 4]; o.extend_from_slice(char::from_u32(*c).unwrap_or('?').encode_utf8(&mut t).as_bytes()) }
        V::Str(s) | V::Safe(s) => o.extend_from_slice(s),
        V::Buf(b) => o.extend_from_slice(&b.borrow()),
        _ => return unk("display of a value without Display"),
    }
    Ok(())
}
pub fn push_int(n: i64, o: &mut Vec<u8>) {
    if n < 0 { o.push(b'-') }
    let mut u = n.unsigned_abs(); let mut t = [0u8; 20]; let mut i = 20;
    loop { i -= 1; t[i] = b'0' + (u % 10) as u8; u /= 10; if u == 0 { break } }
    o.extend_from_slice(&t[i..]);
}
pub fn escape_html(s: &[u8], o: &mut Vec<u8>) {
    for &b in s { match b { b'<' => o.extend_from_slice(b"&lt;"), b'>' => o.extend_from_slice(b"&gt;"), b'&' => o.extend_from_slice(b"&amp;"), b'"' => o.extend_from_slice(b"&quot;"), b'\'' => o.extend_from_slice(b"&#x27;"), b => o.push(b) } }
}
pub fn text_of(v: &V) -> Result<Vec<u8>, Stop> { let mut o = vec![]; display(v, &mut o)?; Ok(o) }
pub fn equal(a: &V, b: &V) -> Result<bool, Stop> {
    Ok(match (a, b) {
        (V::Int(x), V::Int(y)) => x == y, (V::Bool(x), V::Bool(y)) => x == y, (V::Char(x), V::Char(y)) => x == y,
        (V::Str(_) | V::Buf(_), V::Str(_) | V::Buf(_)) => text_of(a)? == text_of(b)?,
        (V::Enum(x, v), V::Enum(y, w)) => x == y && all_equal(v, w)?,
        (V::Tup(v), V::Tup(w)) | (V::List(v), V::List(w)) => all_equal(v, w)?,
        _ => return unk("comparison of different types"),
    })
}
fn all_equal(v: &[V], w: &[V]) -> Result<bool, Stop> { if v.len() != w.len() { return Ok(false) } for (x, y) in v.iter().zip(w) { if !equal(x, y)? { return Ok(false) } } Ok(true) }
/// the binary operators of Rust on the values used here; `&&` and `||` are handled by the callers
pub fn binop(op: &[u8], a: &V, b: &V) -> Rv {
    match op { b"==" => return Ok(V::Bool(equal(a, b)?)), b"!=" => return Ok(V::Bool(!equal(a, b)?)), _ => {} }
    match (a, b) {
        (V::Int(x), V::Int(y)) => Ok(match op {
            b"+" => V::Int(x.wrapping_add(*y)), b"-" => V::Int(x.wrapping_sub(*y)), b"*" => V::Int(x.wrapping_mul(*y)),
            b"/" if *y != 0 => V::Int(x / y), b"%" if *y != 0 => V::Int(x % y),
            b"&" => V::Int(x & y), b"|" => V::Int(x | y), b"^" => V::Int(x ^ y), b"<<" => V::Int(x << (y & 31)), b">>" => V::Int(x >> (y & 31)),
            b"<" => V::Bool(x < y), b">" => V::Bool(x > y), b"<=" => V::Bool(x <= y), b">=" => V::Bool(x >= y),
            _ => return unk("operator on integers") }),
        (V::Bool(x), V::Bool(y)) => Ok(V::Bool(match op { b"&" => x & y, b"|" => x | y, b"^" => x ^ y, _ => return unk("operator on booleans") })),
        _ => unk("operator on other values"),
    }
}
/// methods and functions of the test data, common to the interpreter and the reference
pub fn method(world: &World, recv: &V, name: &[u8], args: &[V]) -> Rv {
    match (recv, name, args) {
        (_, b"next", []) => { let mut c = world.counter.borrow_mut(); *c += 1; Ok(V::Int(*c)) }
        (_, b"twice", [V::Int(n)]) => Ok(V::Int(2 * n)),
        (_, b"sub", [V::Int(n), V::Int(m)]) => Ok(V::Int(n - m)),
        (V::Str(_) | V::Buf(_), b"len", []) => Ok(V::Int(text_of(recv)?.len() as i64)),
        (_, b"upto", [V::Int(n)]) => Ok(V::List(Rc::new((0..*n).map(V::Int).collect()))),
        (V::List(_), b"iter", []) => Ok(recv.clone()),
        (V::List(l), b"len", []) => Ok(V::Int(l.len() as i64)),
        (V::Enum(n, _), b"is_some", []) => Ok(V::Bool(*n == "Some")),
        (V::Enum(n, _), b"is_none", []) => Ok(V::Bool(*n == "None")),
        (V::Int(n), b"pow", [V::Int(m)]) => Ok(V::Int(n.pow(*m as u32))),
        (V::Int(n), b"abs", []) => Ok(V::Int(n.abs())),
        (V::Bool(_), b"clone", []) => Ok(recv.clone()),
        (_, b"okay", [x]) => Ok(V::Enum("Ok", Rc::new(vec![x.clone()]))),
        _ => unk("method"),
    }
}
pub fn filter(world: &World, name: &[u8], args: &[V]) -> Rv {
    let t = |i: usize| -> Result<Vec<u8>, Stop> { text_of(&args[i]) };
    match (name, args.len()) {
        (b"upper" | b"uppercase", 1) => Ok(vstr(&t(0)?.to_ascii_uppercase())),
        (b"lower" | b"lowercase", 1) => Ok(vstr(&t(0)?.to_ascii_lowercase())),
        (b"trim", 1) => { let s = t(0)?; let ws = |b: &u8| matches!(*b, b' ' | b'\n' | b'\t' | b'\r'); let a = s.iter().position(|b| !ws(b)).unwrap_or(s.len()); let e = s.iter().rposition(|b| !ws(b)).map_or(a, |p| p + 1); Ok(vstr(&s[a..e])) }
        // filters of the user
        (b"wrap", 2) => { let (a, b) = (t(0)?, t(1)?); Ok(vstr(&[&b[..], &a, &b].concat())) }
        (b"mark", 1) => Ok(vstr(&[&b"["[..], &t(0)?, b"]"].concat())),
        (b"tick", 1) => { let mut c = world.counter.borrow_mut(); *c += 1; let mut s = t(0)?; push_int(*c, &mut s); Ok(vstr(&s)) }
        _ => unk("filter"),
    }
}
pub fn iterate(v: &V) -> Result<Vec<V>, Stop> {
    Ok(match v { V::List(l) => l.to_vec(), V::Range(a, b) => (*a..*b).map(V::Int).collect(), V::Enum("Some", x) => x.to_vec(), V::Enum("None", _) => vec![], _ => return unk("iteration over another value") })
}
/// data of the template, shared by the interpreter and the reference
pub struct World { pub fields: Vec<(&'static str, V)>, pub counter: RefCell<i64> }
impl World {
    pub fn new(fields: Vec<(&'static str, V)>) -> World { World { fields, counter: RefCell::new(0) } }
    pub fn field(&self, n: &[u8]) -> Option<V> { self.fields.iter().find(|f| f.0.as_bytes() == n).map(|f| f.1.clone()) }
}

// ---------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> { Id(&'a [u8]), Num(&'a [u8]), Str(Rc<Vec<u8>>), Chr(u32), P(&'static [u8]), Life }
const PUNCT: &[&[u8]] = &[b"..=", b"<<=", b">>=", b"::", b"=>", b"->", b"==", b"!=", b"<=", b">=", b"&&", b"||", b"..", b"<<", b">>", b"+=",
    b"{", b"}", b"(", b")", b"[", b"]", b"<", b">", b",", b";", b":", b".", b"=", b"&", b"*", b"!", b"?", b"|", b"+", b"-", b"/", b"%", b"^", b"#", b"$", b"@"];
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c >= 128 }
pub fn lex(s: &[u8]) -> Result<Vec<T<'_>>, Stop> {
    let mut v = vec![]; let mut i = 0; let n = s.len();
    while i < n {
        let c = s[i];
        if c == b' ' || c == b'\n' { i += 1; continue }
        if c == b'r' && i + 2 < n && s[i + 1] == b'#' && idc(s[i + 2]) { let st = i; i += 2; while i < n && idc(s[i]) { i += 1 } v.push(T::Id(&s[st..i])); continue }
        if c.is_ascii_digit() {
            let st = i; while i < n && (idc(s[i]) || (s[i] == b'.' && i + 1 < n && s[i + 1].is_ascii_digit() && !s[st..i].contains(&b'.'))) { i += 1 }
            v.push(T::Num(&s[st..i])); continue
        }
        if idc(c) { let st = i; while i < n && idc(s[i]) { i += 1 } v.push(T::Id(&s[st..i])); continue }
        if c == b'"' { let mut o = vec![]; i += 1; while i < n && s[i] != b'"' { esc(s, &mut i, &mut o)? } i += 1; v.push(T::Str(Rc::new(o))); continue }
        if c == b'\'' {
            if i + 2 < n && s[i + 1] != b'\\' && idc(s[i + 1]) && s[i + 1] < 128 && s[i + 2] != b'\'' { i += 1; while i < n && idc(s[i]) { i += 1 } v.push(T::Life); continue }
            let mut o = vec![]; i += 1; while i < n && s[i] != b'\'' { esc(s, &mut i, &mut o)? } i += 1;
            let Ok(Some(ch)) = std::str::from_utf8(&o).map(|s| s.chars().next()) else { return unk("character literal") };
            v.push(T::Chr(ch as u32)); continue
        }
        let Some(p) = PUNCT.iter().find(|p| s[i..].starts_with(p)) else { return unk("token") };
        v.push(T::P(p)); i += p.len();
    }
    Ok(v)
}
fn esc(s: &[u8], i: &mut usize, o: &mut Vec<u8>) -> Result<(), Stop> {
    if s[*i] != b'\\' { o.push(s[*i]); *i += 1; return Ok(()) }
    let Some(&c) = s.get(*i + 1) else { return unk("escape") };
    *i += 2;
    o.push(match c {
        b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'0' => 0, b'\\' | b'"' | b'\'' => c,
        b'x' => { let (Some(a), Some(b)) = (s.get(*i).and_then(|c| (*c as char).to_digit(16)), s.get(*i + 1).and_then(|c| (*c as char).to_digit(16))) else { return unk("escape") }; *i += 2; (a * 16 + b) as u8 }
        b'u' => {
            let mut k = 0u32; *i += 1;
            while *i < s.len() && s[*i] != b'}' { if s[*i] != b'_' { k = k * 16 + (s[*i] as char).to_digit(16).unwrap_or(0) } *i += 1 }
            *i += 1;
            let mut t = [0; 4]; o.extend_from_slice(char::from_u32(k).unwrap_or('?').encode_utf8(&mut t).as_bytes()); return Ok(())
        }
        b'\n' => { while *i < s.len() && matches!(s[*i], b' ' | b'\n' | b'\t' | b'\r') { *i += 1 } return Ok(()) }
        _ => return unk("escape"),
    });
    Ok(())
}

// ---------- syntax tree
type B<'a> = Box<X<'a>>;
pub enum X<'a> {
    Lit(V), Path(Vec<&'a [u8]>), Field(B<'a>, &'a [u8]), Index(B<'a>, B<'a>), Call(B<'a>, Vec<X<'a>>), Meth(B<'a>, &'a [u8], Vec<X<'a>>),
    Neg(B<'a>), Not(B<'a>), Bin(&'static [u8], B<'a>, B<'a>), Range(Option<B<'a>>, Option<B<'a>>, bool), Tup(Vec<X<'a>>), List(Vec<X<'a>>),
    Block(Vec<S<'a>>), If(B<'a>, Vec<S<'a>>, Option<B<'a>>), Let(P<'a>, B<'a>), Match(B<'a>, Vec<(P<'a>, Option<X<'a>>, X<'a>)>), For(P<'a>, B<'a>, Vec<S<'a>>),
    Fun(Vec<P<'a>>, B<'a>), Macro(&'a [u8], Vec<(Option<&'a [u8]>, X<'a>)>), Try(B<'a>), Set(B<'a>, B<'a>), AddSet(B<'a>, B<'a>), Break, Continue, Return(Option<B<'a>>),
}
pub enum S<'a> { Let(P<'a>, Option<X<'a>>), Ex(X<'a>, bool) }
pub enum P<'a> { Any, Rest, Name(&'a [u8]), Tup(Vec<P<'a>>), Enum(&'a [u8], Vec<P<'a>>), Struct(Vec<(&'a [u8], P<'a>)>), Lit(V), Or(Vec<P<'a>>) }
type R<T> = Result<T, Stop>;
struct Ps<'a, 't> { t: &'t [T<'a>], i: usize, closing: bool }
fn raw(s: &[u8]) -> &[u8] { if s.len() > 2 && s[0] == b'r' && s[1] == b'#' { &s[2..] } else { s } }
fn num(s: &[u8]) -> R<V> {
    let mut n = 0i64; let mut i = 0;
    while i < s.len() && (s[i].is_ascii_digit() || s[i] == b'_') { if s[i] != b'_' { n = n.wrapping_mul(10).wrapping_add((s[i] - b'0') as i64) } i += 1 }
    match &s[i..] { b"" | b"i32" | b"i64" | b"u8" | b"u32" | b"usize" | b"i8" | b"u64" | b"isize" => Ok(V::Int(n)), _ => unk("number") }
}
impl<'a> Ps<'a, '_> {
    fn is(&self, p: &[u8]) -> bool { matches!(self.t.get(self.i), Some(T::P(q)) if *q == p) }
    fn eat(&mut self, p: &[u8]) -> bool { let b = self.is(p); if b { self.i += 1 } b }
    fn need(&mut self, p: &[u8]) -> R<()> { if self.eat(p) { Ok(()) } else { unk("expected another token") } }
    fn kw(&mut self, k: &[u8]) -> bool { let b = matches!(self.t.get(self.i), Some(T::Id(q)) if *q == k); if b { self.i += 1 } b }
    fn is_kw(&self, k: &[u8]) -> bool { matches!(self.t.get(self.i), Some(T::Id(q)) if *q == k) }
    fn id(&mut self) -> R<&'a [u8]> { match self.t.get(self.i) { Some(T::Id(q)) => { let q = *q; self.i += 1; Ok(q) } _ => unk("expected an identifier") } }
    fn block(&mut self) -> R<Vec<S<'a>>> {
        self.need(b"{")?;
        let mut v = vec![];
        loop {
            if self.eat(b"}") { return Ok(v) }
            if self.eat(b";") { continue }
            if self.kw(b"use") { while !self.eat(b";") { if self.i >= self.t.len() { return unk("use") } self.i += 1 } continue }
            while self.eat(b"#") { self.skip_group()? }
            if self.kw(b"let") {
                let p = self.pat()?;
                if self.eat(b":") { self.ty()? }
                let x = if self.eat(b"=") { Some(self.expr(0, true)?) } else { None };
                self.need(b";")?;
                v.push(S::Let(p, x)); continue
            }
            let blocklike = matches!(self.t.get(self.i), Some(T::P(b"{"))) || [&b"if"[..], b"match", b"for"].iter().any(|k| self.is_kw(k));
            let x = if blocklike { self.primary(true)? } else { self.expr(0, true)? };
            let semi = self.eat(b";");
            if !semi && !self.is(b"}") && !blocklike { return unk("expected ;") }
            v.push(S::Ex(x, semi));
        }
    }
    fn skip_group(&mut self) -> R<()> {
        let mut d = 0;
        loop {
            match self.t.get(self.i) { Some(T::P(b"(" | b"[" | b"{")) => d += 1, Some(T::P(b")" | b"]" | b"}")) => d -= 1, None => return unk("unbalanced brackets"), _ => {} }
            self.i += 1;
            if d == 0 { return Ok(()) }
        }
    }
    /// skips a type
    fn ty(&mut self) -> R<()> {
        while self.eat(b"&") || self.kw(b"mut") || matches!(self.t.get(self.i), Some(T::Life)) && { self.i += 1; true } {}
        if self.is(b"(") || self.is(b"[") { return self.skip_group() }
        self.eat(b"::");
        loop { self.id()?; if self.is(b"<") { self.angle()? } if !self.eat(b"::") { return Ok(()) } if self.is(b"<") { self.angle()?; if !self.eat(b"::") { return Ok(()) } } }
    }
    fn angle(&mut self) -> R<()> { let mut d = 0i32; loop { match self.t.get(self.i) { Some(T::P(b"<")) => d += 1, Some(T::P(b">")) => d -= 1, Some(T::P(b">>")) => d -= 2, None => return unk("unbalanced <"), _ => {} } self.i += 1; if d <= 0 { return Ok(()) } } }
    fn pat(&mut self) -> R<P<'a>> {
        self.eat(b"|");
        let p = self.pat1()?;
        if !self.is(b"|") || self.closing { return Ok(p) }
        let mut v = vec![p];
        while self.eat(b"|") { v.push(self.pat1()?) }
        Ok(P::Or(v))
    }
    fn pat1(&mut self) -> R<P<'a>> {
        while self.eat(b"&") || self.eat(b"&&") || self.kw(b"ref") || self.kw(b"mut") {}
        match self.t.get(self.i) {
            Some(T::Str(s)) => { self.i += 1; return Ok(P::Lit(V::Str(s.clone()))) }
            Some(T::Chr(c)) => { self.i += 1; return Ok(P::Lit(V::Char(*c))) }
            Some(T::Num(n)) => { let n = *n; self.i += 1; return Ok(P::Lit(num(n)?)) }
            Some(T::P(b"-")) => { self.i += 1; let Some(T::Num(n)) = self.t.get(self.i) else { return unk("pattern") }; self.i += 1; let V::Int(k) = num(n)? else { return unk("pattern") }; return Ok(P::Lit(V::Int(-k))) }
            Some(T::P(b"..")) => { self.i += 1; return Ok(P::Rest) }
            Some(T::P(b"(")) => { let (v, comma) = self.pats()?; return Ok(if v.len() == 1 && !comma { v.into_iter().next().unwrap() } else { P::Tup(v) }) }
            _ => {}
        }
        self.eat(b"::");
        let mut n = self.id()?; let mut segs = 1;
        while self.eat(b"::") { n = self.id()?; segs += 1 }
        if self.is(b"(") { let (v, _) = self.pats()?; return Ok(P::Enum(n, v)) }
        if self.is(b"{") {
            self.i += 1; let mut v = vec![];
            while !self.eat(b"}") { if self.eat(b"..") { continue } let f = self.id()?; let p = if self.eat(b":") { self.pat()? } else { P::Name(f) }; v.push((f, p)); if !self.eat(b",") { self.need(b"}")?; break } }
            return Ok(P::Struct(v))
        }
        Ok(match n { b"_" => P::Any, b"true" => P::Lit(V::Bool(true)), b"false" => P::Lit(V::Bool(false)), n if segs > 1 || n[0].is_ascii_uppercase() => P::Enum(n, vec![]), n => P::Name(n) })
    }
    fn pats(&mut self) -> R<(Vec<P<'a>>, bool)> {
        self.need(b"(")?; let mut v = vec![]; let mut comma = false;
        let c = self.closing; self.closing = false;
        while !self.eat(b")") { v.push(self.pat()?); comma = self.eat(b","); if !comma { self.need(b")")?; break } }
        self.closing = c;
        Ok((v, comma))
    }
}
// precedence of binary operators; 1 is assignment, 2 ranges
fn prec(p: &[u8]) -> u8 { match p { b"||" => 3, b"&&" => 4, b"==" | b"!=" | b"<" | b">" | b"<=" | b">=" => 5, b"|" => 6, b"^" => 7, b"&" => 8, b"<<" | b">>" => 9, b"+" | b"-" => 10, b"*" | b"/" | b"%" => 11, _ => 0 } }
impl<'a> Ps<'a, '_> {
    fn args(&mut self, end: &[u8]) -> R<(Vec<X<'a>>, bool)> {
        let mut v = vec![]; let mut comma = false;
        while !self.eat(end) { v.push(self.expr(0, true)?); comma = self.eat(b","); if !comma { self.need(end)?; break } }
        Ok((v, comma))
    }
    fn range_end(&mut self, l: Option<B<'a>>, incl: bool, st: bool) -> R<X<'a>> {
        let stop = match self.t.get(self.i) { None => true, Some(T::P(p)) => matches!(*p, b")" | b"]" | b"}" | b"," | b";" | b"=>") || (*p == b"{" && !st), _ => false };
        let r = if stop { None } else { Some(Box::new(self.expr(3, st)?)) };
        Ok(X::Range(l, r, incl))
    }
    fn expr(&mut self, min: u8, st: bool) -> R<X<'a>> {
        if min <= 2 { for (p, incl) in [(&b".."[..], false), (b"..=", true)] { if self.eat(p) { return self.range_end(None, incl, st) } } }
        let mut l = self.unary(st)?;
        loop {
            let Some(T::P(p)) = self.t.get(self.i) else { return Ok(l) };
            let p: &'static [u8] = p;
            if min <= 2 && (p == b".." || p == b"..=") { self.i += 1; l = self.range_end(Some(Box::new(l)), p == b"..=", st)?; continue }
            if min <= 1 && (p == b"=" || p == b"+=") { self.i += 1; let r = self.expr(1, st)?; return Ok(if p == b"=" { X::Set(Box::new(l), Box::new(r)) } else { X::AddSet(Box::new(l), Box::new(r)) }) }
            let k = prec(p);
            if k == 0 || k < min { return Ok(l) }
            self.i += 1;
            let r = self.expr(k + 1, st)?;
            // comparisons do not associate
            if k == 5 { if let Some(T::P(q)) = self.t.get(self.i) { if prec(q) == 5 { return unk("chained comparison") } } }
            l = X::Bin(p, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self, st: bool) -> R<X<'a>> {
        if self.eat(b"&") || self.eat(b"&&") { self.kw(b"mut"); return self.unary(st) }
        if self.eat(b"*") { return self.unary(st) }
        if self.eat(b"!") { return Ok(X::Not(Box::new(self.unary(st)?))) }
        if self.eat(b"-") { return Ok(X::Neg(Box::new(self.unary(st)?))) }
        if self.kw(b"let") { let p = self.pat()?; self.need(b"=")?; let x = self.expr(5, false)?; return Ok(X::Let(p, Box::new(x))) }
        if self.is(b"|") || self.is(b"||") {
            let mut v = vec![];
            if !self.eat(b"||") { self.eat(b"|"); let c = self.closing; self.closing = true; while !self.eat(b"|") { v.push(self.pat()?); if self.eat(b":") { self.ty()? } self.eat(b","); } self.closing = c }
            if self.eat(b"->") { self.ty()? }
            return Ok(X::Fun(v, Box::new(self.expr(0, true)?)))
        }
        let mut x = self.primary(st)?;
        while self.kw(b"as") { self.ty()?; let y = x; x = y }
        Ok(x)
    }
    fn primary(&mut self, st: bool) -> R<X<'a>> {
        let mut x = self.atom(st)?;
        loop {
            if self.eat(b"?") { x = X::Try(Box::new(x)); continue }
            if self.eat(b"(") { let (a, _) = self.args(b")")?; x = X::Call(Box::new(x), a); continue }
            if self.eat(b"[") { let e = self.expr(0, true)?; self.need(b"]")?; x = X::Index(Box::new(x), Box::new(e)); continue }
            if self.eat(b".") {
                match self.t.get(self.i) {
                    Some(T::Id(n)) => { let n = raw(n); self.i += 1; if self.is(b"::") { self.i += 1; self.angle()? } if self.eat(b"(") { let (a, _) = self.args(b")")?; x = X::Meth(Box::new(x), n, a) } else { x = X::Field(Box::new(x), n) } }
                    Some(T::Num(n)) => { let n = *n; self.i += 1; for f in n.split(|c| *c == b'.') { x = X::Field(Box::new(x), f) } }
                    _ => return unk("after ."),
                }
                continue
            }
            return Ok(x)
        }
    }
    fn atom(&mut self, st: bool) -> R<X<'a>> {
        let Some(t) = self.t.get(self.i) else { return unk("end of the code") };
        match t {
            T::Str(s) => { self.i += 1; Ok(X::Lit(V::Str(s.clone()))) }
            T::Chr(c) => { self.i += 1; Ok(X::Lit(V::Char(*c))) }
            T::Num(n) => { self.i += 1; Ok(X::Lit(num(n)?)) }
            T::P(b"(") => { self.i += 1; let (mut v, comma) = self.args(b")")?; Ok(if v.len() == 1 && !comma { v.pop().unwrap() } else if v.is_empty() { X::Lit(V::Unit) } else { X::Tup(v) }) }
            T::P(b"[") => { self.i += 1; let (v, _) = self.args(b"]")?; Ok(X::List(v)) }
            T::P(b"{") => Ok(X::Block(self.block()?)),
            T::P(b"::") => { self.i += 1; self.path() }
            T::P(b"<") => unk("qualified path"),
            T::Id(b"if") => { self.i += 1; self.if_() }
            T::Id(b"match") => {
                self.i += 1; let x = self.expr(0, false)?; self.need(b"{")?; let mut arms = vec![];
                while !self.eat(b"}") {
                    let p = self.pat()?; let g = if self.kw(b"if") { Some(self.expr(0, true)?) } else { None };
                    self.need(b"=>")?;
                    let blocklike = self.is(b"{");
                    let e = if blocklike { X::Block(self.block()?) } else { self.expr(0, true)? };
                    if !self.eat(b",") && !blocklike && !self.is(b"}") { return unk("match arm") }
                    arms.push((p, g, e));
                }
                Ok(X::Match(Box::new(x), arms))
            }
            T::Id(b"for") => { self.i += 1; let p = self.pat()?; if !self.kw(b"in") { return unk("for") } let x = self.expr(0, false)?; Ok(X::For(p, Box::new(x), self.block()?)) }
            T::Id(b"break") => { self.i += 1; Ok(X::Break) }
            T::Id(b"continue") => { self.i += 1; Ok(X::Continue) }
            T::Id(b"return") => { self.i += 1; if self.is(b";") || self.is(b"}") { Ok(X::Return(None)) } else { Ok(X::Return(Some(Box::new(self.expr(0, st)?)))) } }
            T::Id(b"true") => { self.i += 1; Ok(X::Lit(V::Bool(true))) }
            T::Id(b"false") => { self.i += 1; Ok(X::Lit(V::Bool(false))) }
            T::Id(b"move") => { self.i += 1; self.unary(st) }
            T::Id(b"while" | b"loop" | b"unsafe" | b"async" | b"fn" | b"impl" | b"const" | b"static") => unk("statement"),
            T::Id(_) => self.path(),
            _ => unk("expression"),
        }
    }
    fn if_(&mut self) -> R<X<'a>> {
        let c = self.expr(0, false)?; let b = self.block()?;
        let e = if self.kw(b"else") { Some(Box::new(if self.kw(b"if") { self.if_()? } else { X::Block(self.block()?) })) } else { None };
        Ok(X::If(Box::new(c), b, e))
    }
    fn path(&mut self) -> R<X<'a>> {
        let mut v = vec![self.id()?];
        while self.eat(b"::") { if self.is(b"<") { self.angle()? } else { v.push(self.id()?) } }
        if self.is(b"!") && !matches!(self.t.get(self.i + 1), Some(T::P(b"="))) {
            self.i += 1;
            let end: &[u8] = if self.eat(b"(") { b")" } else if self.eat(b"[") { b"]" } else { return unk("macro") };
            let mut a = vec![];
            while !self.eat(end) {
                let n = match (self.t.get(self.i), self.t.get(self.i + 1)) { (Some(T::Id(n)), Some(T::P(b"="))) => { self.i += 2; Some(*n) } _ => None };
                a.push((n, self.expr(0, true)?));
                if !self.eat(b",") { self.need(end)?; break }
            }
            return Ok(X::Macro(v[v.len() - 1], a))
        }
        Ok(X::Path(v))
    }
}

// ---------- evaluation
pub struct It<'w> { pub w: &'w World, vars: Vec<(Vec<u8>, Option<V>)>, fuel: u32 }
fn okv(v: V) -> V { V::Enum("Ok", Rc::new(vec![v])) }
fn int(v: &V) -> R<i64> { if let V::Int(n) = v { Ok(*n) } else { unk("expected an integer") } }
fn boolean(v: &V) -> R<bool> { if let V::Bool(n) = v { Ok(*n) } else { unk("expected a boolean") } }
/// does the pattern match, and what does it bind
fn matches<'p>(p: &P<'p>, v: &V, b: &mut Vec<(&'p [u8], V)>) -> R<bool> {
    Ok(match (p, v) {
        (P::Any | P::Rest, _) => true,
        (P::Name(n), v) => { b.push((n, v.clone())); true }
        (P::Lit(l), v) => equal(l, v)?,
        (P::Or(ps), v) => { for p in ps { if matches(p, v, b)? { return Ok(true) } } false }
        (P::Tup(ps), V::Tup(vs)) => return seq(ps, vs, b),
        (P::Enum(n, ps), V::Enum(m, vs)) => *n == m.as_bytes() && seq(ps, vs, b)?,
        (P::Enum(_, ps), V::Tup(vs)) => return seq(ps, vs, b),
        (P::Struct(fs), V::Obj(os)) => { for (n, p) in fs { let Some((_, v)) = os.iter().find(|o| o.0.as_bytes() == raw(n)) else { return unk("field of a pattern") }; if !matches(p, v, b)? { return Ok(false) } } true }
        _ => return unk("pattern on another value"),
    })
}
fn seq<'p>(ps: &[P<'p>], vs: &[V], b: &mut Vec<(&'p [u8], V)>) -> R<bool> {
    if let Some(k) = ps.iter().position(|p| matches!(p, P::Rest)) {
        let tail = ps.len() - k - 1; if vs.len() < k + tail { return unk("tuple pattern") }
        return Ok(seq(&ps[..k], &vs[..k], b)? && seq(&ps[k + 1..], &vs[vs.len() - tail..], b)?)
    }
    if ps.len() != vs.len() { return unk("tuple pattern of another length") }
    for (p, v) in ps.iter().zip(vs) { if !matches(p, v, b)? { return Ok(false) } }
    Ok(true)
}
impl<'w> It<'w> {
    fn get(&self, n: &[u8]) -> R<V> {
        match self.vars.iter().rev().find(|v| v.0 == n) { Some((_, Some(v))) => Ok(v.clone()), Some(_) => unk("use of an uninitialised variable"), None => unk("unknown variable") }
    }
    fn bind(&mut self, b: Vec<(&[u8], V)>) { for (n, v) in b { self.vars.push((n.to_vec(), Some(v))) } }
    fn stmts(&mut self, s: &[S<'_>]) -> Rv {
        let m = self.vars.len();
        let mut last = V::Unit;
        for x in s {
            last = V::Unit;
            match x {
                S::Let(P::Name(n), None) => self.vars.push((n.to_vec(), None)),
                S::Let(_, None) => return unk("declaration of a pattern"),
                S::Let(p, Some(x)) => { let v = self.eval(x)?; let mut b = vec![]; if !matches(p, &v, &mut b)? { return unk("refutable let") } self.bind(b) }
                S::Ex(x, semi) => { let v = self.eval(x)?; if !semi { last = v } }
            }
        }
        self.vars.truncate(m);
        Ok(last)
    }
    /// a condition; bindings of `let` stay on the stack
    fn cond(&mut self, x: &X<'_>) -> R<bool> {
        match x {
            X::Let(p, x) => { let v = self.eval(x)?; let mut b = vec![]; let r = matches(p, &v, &mut b)?; if r { self.bind(b) } Ok(r) }
            X::Bin(b"&&", l, r) => Ok(self.cond(l)? && self.cond(r)?),
            x => { let v = self.eval(x)?; boolean(&v) }
        }
    }
    fn list(&mut self, a: &[X<'_>]) -> R<Vec<V>> { let mut v = Vec::with_capacity(a.len()); for x in a { v.push(self.eval(x)?) } Ok(v) }
    fn apply(&mut self, f: &X<'_>, a: V) -> Rv {
        let X::Fun(ps, body) = f else { return unk("function value") };
        let m = self.vars.len();
        if let [p] = &ps[..] { let mut b = vec![]; if !matches(p, &a, &mut b)? { return unk("refutable parameter") } self.bind(b) } else { return unk("closure") }
        let r = self.eval(body); self.vars.truncate(m); r
    }
    pub fn eval(&mut self, x: &X<'_>) -> Rv {
        if self.fuel == 0 { return unk("too many steps") }
        self.fuel -= 1;
        Ok(match x {
            X::Lit(v) => v.clone(),
            X::Path(p) => match p[..] {
                [b"self"] => V::Unit,
                [n] if n[0].is_ascii_uppercase() && self.vars.iter().all(|v| v.0 != n) => return self.konst(n),
                [n] => return self.get(n),
                _ => return self.konst(p[p.len() - 1]),
            },
            X::Field(x, f) => {
                if let X::Path(p) = &**x { if p[..] == [b"self"] { return self.w.field(raw(f)).map_or_else(|| unk("unknown field"), Ok) } }
                match (self.eval(x)?, *f) {
                    (V::Obj(o), f) => match o.iter().find(|o| o.0.as_bytes() == raw(f)) { Some(o) => o.1.clone(), None => return unk("unknown field") },
                    (V::Item(i, _, _), b"index") => V::Int(i as i64), (V::Item(_, b, _), b"first") | (V::Item(_, _, b), b"last") => V::Bool(b),
                    (V::Tup(t), f) if f[0].is_ascii_digit() => match t.get(int(&num(f)?)? as usize) { Some(v) => v.clone(), None => return unk("tuple index") },
                    _ => return unk("field"),
                }
            }
            X::Index(x, i) => { let (x, i) = (self.eval(x)?, self.eval(i)?); let V::List(l) = x else { return unk("index") }; match l.get(int(&i)? as usize) { Some(v) => v.clone(), None => return unk("index out of bounds") } }
            X::Neg(x) => V::Int(-int(&self.eval(x)?)?),
            X::Not(x) => match self.eval(x)? { V::Bool(b) => V::Bool(!b), V::Int(n) => V::Int(!n), _ => return unk("!") },
            X::Bin(b"&&", l, r) => { let l = self.eval(l)?; if !boolean(&l)? { return Ok(V::Bool(false)) } let r = self.eval(r)?; V::Bool(boolean(&r)?) }
            X::Bin(b"||", l, r) => { let l = self.eval(l)?; if boolean(&l)? { return Ok(V::Bool(true)) } let r = self.eval(r)?; V::Bool(boolean(&r)?) }
            X::Bin(op, l, r) => { let l = self.eval(l)?; let r = self.eval(r)?; binop(op, &l, &r)? }
            X::Range(l, r, incl) => { let a = match l { Some(l) => int(&self.eval(l)?)?, None => return unk("range without start") }; let b = match r { Some(r) => int(&self.eval(r)?)?, None => return unk("range without end") }; V::Range(a, if *incl { b + 1 } else { b }) }
            X::Tup(v) => V::Tup(Rc::new(self.list(v)?)),
            X::List(v) => V::List(Rc::new(self.list(v)?)),
            X::Block(s) => self.stmts(s)?,
            X::If(c, t, e) => { let m = self.vars.len(); if self.cond(c)? { let r = self.stmts(t)?; self.vars.truncate(m); r } else { self.vars.truncate(m); match e { Some(e) => self.eval(e)?, None => V::Unit } } }
            X::Let(..) => return unk("let expression"),
            X::Match(x, arms) => {
                let v = self.eval(x)?;
                for (p, g, e) in arms {
                    let mut b = vec![];
                    if !matches(p, &v, &mut b)? { continue }
                    let m = self.vars.len(); self.bind(b);
                    if let Some(g) = g { let g = self.eval(g)?; if !boolean(&g)? { self.vars.truncate(m); continue } }
                    let r = self.eval(e)?; self.vars.truncate(m); return Ok(r)
                }
                return unk("no arm matches")
            }
            X::For(p, x, body) => {
                let v = self.eval(x)?; let m = self.vars.len();
                for e in iterate(&v)? {
                    let mut b = vec![]; if !matches(p, &e, &mut b)? { return unk("refutable for") }
                    self.bind(b);
                    let r = self.stmts(body); self.vars.truncate(m);
                    match r { Ok(_) | Err(Stop::Continue) => {} Err(Stop::Break) => break, Err(e) => return Err(e) }
                }
                V::Unit
            }
            X::Fun(..) => return unk("closure value"),
            X::Try(x) => match self.eval(x)? { V::Enum("Ok" | "Some", v) => v[0].clone(), V::Enum("Err", v) => return Err(Stop::Err(v[0].clone())), _ => return unk("? on another value") },
            X::Set(l, r) => { let v = self.eval(r)?; let X::Path(p) = &**l else { return unk("assignment") }; match self.vars.iter_mut().rev().find(|x| p.len() == 1 && x.0 == p[0]) { Some(x) => x.1 = Some(v), None => return unk("assignment") } V::Unit }
            X::AddSet(..) => return unk("+="),
            X::Break => return Err(Stop::Break),
            X::Continue => return Err(Stop::Continue),
            X::Return(x) => { let v = match x { Some(x) => self.eval(x)?, None => V::Unit }; return Err(Stop::Return(v)) }
            X::Macro(n, a) => self.mac(n, a)?,
            X::Call(f, a) => self.call(f, a)?,
            X::Meth(x, n, a) => self.meth(x, n, a)?,
        })
    }
    fn konst(&self, n: &[u8]) -> Rv { Ok(match n { b"None" => V::Enum("None", Rc::new(vec![])), b"Html" => V::Enum("Html", Rc::new(vec![])), b"Text" => V::Enum("Text", Rc::new(vec![])), b"Shout" => V::Enum("Shout", Rc::new(vec![])), b"Red" => V::Enum("Red", Rc::new(vec![])), b"Green" => V::Enum("Green", Rc::new(vec![])), b"SEVEN" => V::Int(7), _ => return unk("constant") }) }
    fn fmt(&mut self, a: &[(Option<&[u8]>, X<'_>)], o: &mut Vec<u8>) -> R<()> {
        let Some((None, X::Lit(V::Str(f)))) = a.first() else { return unk("format string") };
        // all arguments are evaluated first, in order
        let mut vals = vec![];
        for (n, x) in &a[1..] { let v = self.eval(x)?; vals.push((*n, v)) }
        let mut pos = 0; let mut i = 0;
        while i < f.len() {
            let c = f[i];
            if c == b'{' || c == b'}' {
                if f.get(i + 1) == Some(&c) { o.push(c); i += 2; continue }
                if c == b'}' { return unk("format string") }
                let Some(e) = f[i..].iter().position(|c| *c == b'}') else { return unk("format string") };
                let n = &f[i + 1..i + e];
                if n.contains(&b':') { return unk("format specification") }
                let v = if n.is_empty() { pos += 1; match vals.get(pos - 1) { Some(v) => v.1.clone(), None => return unk("format argument") } } else { match vals.iter().find(|v| v.0 == Some(n)) { Some(v) => v.1.clone(), None => self.get(n)? } };
                display(&v, o)?;
                i += e + 1; continue
            }
            o.push(c); i += 1;
        }
        Ok(())
    }
    fn mac(&mut self, n: &[u8], a: &[(Option<&[u8]>, X<'_>)]) -> Rv {
        match n {
            b"write" => { let w = self.eval(&a[0].1)?; let V::Buf(w) = w else { return unk("write to another value") }; let mut o = vec![]; self.fmt(&a[1..], &mut o)?; w.borrow_mut().extend_from_slice(&o); Ok(okv(V::Unit)) }
            b"format" => { let mut o = vec![]; self.fmt(a, &mut o)?; Ok(V::Str(Rc::new(o))) }
            b"include_bytes" => Ok(V::Unit),
            b"vec" => { let mut v = vec![]; for x in a { v.push(self.eval(&x.1)?) } Ok(V::List(Rc::new(v))) }
            _ => unk("macro"),
        }
    }
    fn call(&mut self, f: &X<'_>, a: &[X<'_>]) -> Rv {
        match f {
            X::Field(x, n) => { let r = self.eval(x)?; let a = self.list(a)?; method(self.w, &r, n, &a) }
            X::Path(p) => {
                let name = p[p.len() - 1];
                let owner: &[u8] = if p.len() > 1 { p[p.len() - 2] } else { b"" };
                if name == b"map_err" && a.len() == 2 { let v = self.eval(&a[0])?; return self.map_err(v, &a[1]) }
                let v = self.list(a)?;
                match (owner, name, &v[..]) {
                    (b"MarkupDisplay", b"new_unsafe", [x, e]) => { let s = escaped(e, x)?; Ok(V::Safe(Rc::new(s))) }
                    (b"filters", b"safe", [_, x]) => Ok(okv(V::Safe(Rc::new(text_of(x)?)))),
                    (b"filters", b"escape", [e, x]) => Ok(okv(V::Safe(Rc::new(escaped(e, x)?)))),
                    (b"filters", b"join", [l, s]) => { let s = text_of(s)?; let mut o = vec![]; for (i, x) in iterate(l)?.iter().enumerate() { if i > 0 { o.extend_from_slice(&s) } display(x, &mut o)? } Ok(okv(V::Str(Rc::new(o)))) }
                    (b"filters", n, a) => Ok(okv(filter(self.w, n, a)?)),
                    (b"TemplateLoop", b"new", [l]) => { let l = iterate(l)?; let n = l.len(); Ok(V::List(Rc::new(l.into_iter().enumerate().map(|(i, v)| V::Tup(Rc::new(vec![v, V::Item(i, i == 0, i + 1 == n)]))).collect()))) }
                    (b"String", b"new", []) => Ok(V::Buf(Rc::new(RefCell::new(vec![])))),
                    (_, b"Ok", [x]) => Ok(okv(x.clone())),
                    (_, b"Some", [x]) => Ok(V::Enum("Some", Rc::new(vec![x.clone()]))),
                    (_, b"Err", [x]) => Ok(V::Enum("Err", Rc::new(vec![x.clone()]))),
                    (_, b"into" | b"Custom" | b"from", [x]) => Ok(x.clone()),
                    (_, n, a) => method(self.w, &V::Unit, n, a),
                }
            }
            _ => unk("call"),
        }
    }
    fn map_err(&mut self, v: V, f: &X<'_>) -> Rv {
        match v { V::Enum("Err", e) => { let e = self.apply(f, e[0].clone())?; Ok(V::Enum("Err", Rc::new(vec![e]))) } v => Ok(v) }
    }
    fn meth(&mut self, x: &X<'_>, n: &[u8], a: &[X<'_>]) -> Rv {
        let r = self.eval(x)?;
        match (n, a) {
            (b"into_iter" | b"iter", []) => { let l = iterate(&r)?; return Ok(V::List(Rc::new(l))) }
            (b"filter", [f]) => { let mut o = vec![]; for e in iterate(&r)? { let v = self.apply(f, e.clone())?; if boolean(&v)? { o.push(e) } } return Ok(V::List(Rc::new(o))) }
            (b"map_err", [f]) => return self.map_err(r, f),
            (b"clone" | b"to_string" | b"as_str" | b"as_ref" | b"to_owned" | b"deref", []) => return Ok(r),
            (b"write_str", [s]) => { let s = self.eval(s)?; let V::Buf(b) = &r else { return unk("write_str") }; b.borrow_mut().extend_from_slice(&text_of(&s)?); return Ok(okv(V::Unit)) }
            (b"write_char", [s]) => { let s = self.eval(s)?; let V::Buf(b) = &r else { return unk("write_char") }; b.borrow_mut().extend_from_slice(&text_of(&s)?); return Ok(okv(V::Unit)) }
            _ => {}
        }
        let a = self.list(a)?;
        method(self.w, &r, n, &a)
    }
}
fn escaped(e: &V, x: &V) -> R<Vec<u8>> { let s = text_of(x)?; match e { V::Enum("Html", _) => { let mut o = vec![]; escape_html(&s, &mut o); Ok(o) } V::Enum("Text", _) => Ok(s), V::Enum("Shout", _) => Ok(s.to_ascii_uppercase()), _ => unk("escaper") } }

/// what the generated code writes: the output, and how it ends
pub struct Code<'a> { body: Vec<S<'a>>, pub tokens: Vec<T<'a>> }
pub fn parse(code: &str) -> Result<Code<'_>, &'static str> {
    let g = || -> R<Code<'_>> {
        let tokens = lex(code.as_bytes())?;
        let Some(at) = tokens.iter().position(|t| *t == T::Id(b"render_into")) else { return unk("no render_into") };
        let mut p = Ps { t: &tokens, i: at + 1, closing: false };
        p.skip_group()?;
        while !p.is(b"{") { if p.i >= tokens.len() { return unk("no body") } p.i += 1 }
        let body = p.block()?;
        Ok(Code { body, tokens: vec![] })
    };
    match g() { Ok(c) => Ok(c), Err(Stop::Unknown(s)) => Err(s), Err(_) => Err("stop") }
}
pub fn run(c: &Code<'_>, w: &World) -> Result<(Vec<u8>, bool), &'static str> {
    let out = Rc::new(RefCell::new(vec![]));
    let mut it = It { w, vars: vec![(b"writer".to_vec(), Some(V::Buf(out.clone())))], fuel: 20000 };
    let ok = match it.stmts(&c.body) {
        Ok(V::Enum("Ok", _)) => true,
        Ok(V::Enum("Err", _)) | Err(Stop::Err(_)) => false,
        Err(Stop::Return(V::Enum("Ok", _))) => true, Err(Stop::Return(V::Enum("Err", _))) => false,
        Err(Stop::Unknown(s)) => return Err(s),
        _ => return Err("unexpected end"),
    };
    let o = out.borrow().clone();
    Ok((o, ok))
}
