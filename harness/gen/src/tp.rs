//! Templates as sequences of tags and texts: printing them, and rendering them directly (the reference).
//! The reference follows the book and knows nothing of askama's parser or code generator.
use crate::mr::{self, binop, display, equal, filter, iterate, method, text_of, Rv, Stop, World, V};
use std::rc::Rc;

#[derive(Clone)]
pub enum E {
    V(&'static str), I(i64), S(&'static str), B(bool), C(char), At(Box<E>, &'static str), Ix(Box<E>, Box<E>), Me(Box<E>, &'static str, Vec<E>), Un(&'static str, Box<E>), Bi(&'static str, Box<E>, Box<E>),
    Gr(Box<E>), Fi(&'static str, Vec<E>), Tu(Vec<E>), Ar(Vec<E>), Ra(Box<E>, Box<E>, bool), Lp(&'static str), Cy(Box<E>), Try(Box<E>), Na(&'static str, Box<E>), Pa(&'static str), Vb(Vec<u8>),
}
#[derive(Clone)]
pub enum P { N(&'static str), Any, Tu(Vec<P>), En(&'static str, Vec<P>), St(&'static str, Vec<(&'static str, Option<P>)>), L(E), Or(Vec<P>) }
#[derive(Clone)]
pub enum K {
    Text(Vec<u8>), Ex(E), If(E), IfLet(P, E), Elif(E), ElifLet(P, E), Else, EndIf, For(P, E, Option<E>), EndFor, Match(E), When(P), EndMatch, Let(P, Option<E>),
    Macro(&'static str, Vec<&'static str>), EndMacro, Call(Option<&'static str>, &'static str, Vec<E>), Super, Block(&'static str), EndBlock, Include(&'static str), Import(&'static str, &'static str), Extends(&'static str),
    Comment(&'static str), Raw, EndRaw, Filter(Vec<(&'static str, Vec<E>)>), EndFilter, Break, Continue,
}
#[derive(Clone)]
pub struct Tok { pub k: K, pub l: u8, pub r: u8 }
pub struct File { pub path: &'static str, pub t: Vec<Tok> }
#[derive(Clone, Copy, PartialEq)]
pub enum Ws { Preserve, Suppress, Minimize }
pub struct Tpl { pub files: Vec<File>, pub ws: Ws, pub fragment: Option<&'static str>, pub text: bool, pub shout: bool }
pub fn t(k: K) -> Tok { Tok { k, l: b' ', r: b' ' } }
pub fn tx(s: &str) -> Tok { t(K::Text(s.as_bytes().to_vec())) }
pub fn v(n: &'static str) -> E { E::V(n) }
pub fn b(e: E) -> Box<E> { Box::new(e) }
pub fn ex(n: &'static str) -> Tok { t(K::Ex(E::V(n))) }
pub fn fl(path: &'static str, t: Vec<Tok>) -> File { File { path, t } }
pub fn one(t: Vec<Tok>) -> Tpl { Tpl { files: vec![fl("t.html", t)], ws: Ws::Preserve, fragment: None, text: false, shout: false } }
pub fn many(files: Vec<File>) -> Tpl { Tpl { files, ws: Ws::Preserve, fragment: None, text: false, shout: false } }

// ---------- printing
fn s(o: &mut Vec<u8>, t: &str) { o.extend_from_slice(t.as_bytes()) }
fn list(o: &mut Vec<u8>, v: &[E]) { for (i, e) in v.iter().enumerate() { if i > 0 { s(o, ", ") } pe(o, e) } }
pub fn pe(o: &mut Vec<u8>, e: &E) {
    match e {
        E::V(n) | E::Pa(n) => s(o, n), E::I(n) => mr::push_int(*n, o), E::S(t) => { o.push(b'"'); s(o, t); o.push(b'"') } E::B(x) => s(o, if *x { "true" } else { "false" }), E::C(c) => { let mut t = [0; 4]; o.push(b'\''); s(o, c.encode_utf8(&mut t)); o.push(b'\'') }
        E::At(x, n) => { pe(o, x); o.push(b'.'); s(o, n) } E::Ix(x, i) => { pe(o, x); o.push(b'['); pe(o, i); o.push(b']') }
        E::Me(x, n, a) => { pe(o, x); o.push(b'.'); s(o, n); o.push(b'('); list(o, a); o.push(b')') }
        E::Un(p, x) => { s(o, p); pe(o, x) } E::Bi(p, x, y) => { pe(o, x); o.push(b' '); s(o, p); o.push(b' '); pe(o, y) }
        E::Gr(x) => { o.push(b'('); pe(o, x); o.push(b')') } E::Fi(n, a) => { pe(o, &a[0]); o.push(b'|'); s(o, n); if a.len() > 1 { o.push(b'('); list(o, &a[1..]); o.push(b')') } }
        E::Tu(v) => { o.push(b'('); list(o, v); o.push(b')') } E::Ar(v) => { o.push(b'['); list(o, v); o.push(b']') } E::Ra(x, y, i) => { pe(o, x); s(o, if *i { "..=" } else { ".." }); pe(o, y) }
        E::Lp(n) => { s(o, "loop."); s(o, n) } E::Cy(v) => { s(o, "loop.cycle("); pe(o, v); o.push(b')') } E::Try(x) => { pe(o, x); o.push(b'?') } E::Na(n, x) => { s(o, n); s(o, " = "); pe(o, x) }
        E::Vb(n) => o.extend_from_slice(n),
    }
}
pub fn pp(o: &mut Vec<u8>, p: &P) {
    let seq = |o: &mut Vec<u8>, v: &[P]| { o.push(b'('); for (i, p) in v.iter().enumerate() { if i > 0 { s(o, ", ") } pp(o, p) } o.push(b')') };
    match p {
        P::N(n) => s(o, n), P::Any => s(o, "_"), P::Tu(v) => seq(o, v), P::L(e) => pe(o, e), P::En(n, v) => { s(o, n); if !v.is_empty() { seq(o, v) } }
        P::St(n, f) => { s(o, n); s(o, " { "); for (i, (n, p)) in f.iter().enumerate() { if i > 0 { s(o, ", ") } s(o, n); if let Some(p) = p { s(o, ": "); pp(o, p) } } s(o, " }") }
        P::Or(v) => for (i, p) in v.iter().enumerate() { if i > 0 { s(o, " or ") } pp(o, p) },
    }
}
pub fn print(toks: &[Tok]) -> Vec<u8> {
    let mut o = vec![];
    for t in toks {
        match &t.k {
            K::Text(x) => { o.extend_from_slice(x); continue }
            K::Ex(e) => { s(&mut o, "{{"); o.push(t.l); o.push(b' '); pe(&mut o, e); o.push(b' '); o.push(t.r); s(&mut o, "}}"); continue }
            K::Comment(c) => { s(&mut o, "{#"); o.push(t.l); s(&mut o, c); o.push(t.r); s(&mut o, "#}"); continue }
            _ => {}
        }
        s(&mut o, "{%"); o.push(t.l); o.push(b' ');
        let o2 = &mut o;
        match &t.k {
            K::If(e) => { s(o2, "if "); pe(o2, e) } K::Elif(e) => { s(o2, "else if "); pe(o2, e) } K::IfLet(p, e) => { s(o2, "if let "); pp(o2, p); s(o2, " = "); pe(o2, e) } K::ElifLet(p, e) => { s(o2, "else if let "); pp(o2, p); s(o2, " = "); pe(o2, e) }
            K::Else => s(o2, "else"), K::EndIf => s(o2, "endif"), K::For(p, e, c) => { s(o2, "for "); pp(o2, p); s(o2, " in "); pe(o2, e); if let Some(c) = c { s(o2, " if "); pe(o2, c) } } K::EndFor => s(o2, "endfor"),
            K::Match(e) => { s(o2, "match "); pe(o2, e) } K::When(p) => { s(o2, "when "); pp(o2, p) } K::EndMatch => s(o2, "endmatch"),
            K::Let(p, e) => { s(o2, "let "); pp(o2, p); if let Some(e) = e { s(o2, " = "); pe(o2, e) } }
            K::Macro(n, a) => { s(o2, "macro "); s(o2, n); o2.push(b'('); for (i, a) in a.iter().enumerate() { if i > 0 { s(o2, ", ") } s(o2, a) } o2.push(b')') } K::EndMacro => s(o2, "endmacro"),
            K::Call(c, n, a) => { s(o2, "call "); if let Some(c) = c { s(o2, c); s(o2, "::") } s(o2, n); o2.push(b'('); list(o2, a); o2.push(b')') } K::Super => s(o2, "call super()"),
            K::Block(n) => { s(o2, "block "); s(o2, n) } K::EndBlock => s(o2, "endblock"), K::Include(p) => { s(o2, "include \""); s(o2, p); o2.push(b'"') } K::Import(p, n) => { s(o2, "import \""); s(o2, p); s(o2, "\" as "); s(o2, n) } K::Extends(p) => { s(o2, "extends \""); s(o2, p); o2.push(b'"') }
            K::Raw => s(o2, "raw"), K::EndRaw => s(o2, "endraw"), K::Filter(f) => { s(o2, "filter "); for (i, (n, a)) in f.iter().enumerate() { if i > 0 { o2.push(b'|') } s(o2, n); if !a.is_empty() { o2.push(b'('); list(o2, a); o2.push(b')') } } } K::EndFilter => s(o2, "endfilter"),
            K::Break => s(o2, "break"), K::Continue => s(o2, "continue"), K::Text(_) | K::Ex(_) | K::Comment(_) => {}
        }
        o.push(b' '); o.push(t.r); s(&mut o, "%}");
    }
    o
}

// ---------- reference
fn unescape(t: &[u8]) -> Vec<u8> { let mut o = vec![]; let mut i = 0; while i < t.len() { if t[i] == b'\\' { i += 1; o.push(match t[i] { b'n' => b'\n', b't' => b'\t', c => c }) } else { o.push(t[i]) } i += 1 } o }
fn is_ws(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\r' | b'\n') }
fn trim(x: &[u8], h: Ws, o: &mut Vec<u8>) { match h { Ws::Preserve => o.extend_from_slice(x), Ws::Suppress => {} Ws::Minimize => if !x.is_empty() { o.push(if x.contains(&b'\n') { b'\n' } else { b' ' }) } } }
/// ends the path: the documentation does not say what the outcome is
pub const UNSPECIFIED: &str = "unspecified";
pub struct Rf<'t> {
    t: &'t Tpl, w: &'t World, out: Vec<Vec<u8>>, vars: Vec<(&'static str, Option<V>)>, barrier: usize, loops: Vec<(usize, bool, bool)>,
    chain: Vec<usize>, cur: Option<(&'static str, usize)>, files: Vec<usize>, mute: bool,
}
type R<T> = Result<T, Stop>;
impl<'t> Rf<'t> {
    pub fn new(t: &'t Tpl, w: &'t World) -> Rf<'t> { Rf { t, w, out: vec![vec![]], vars: vec![], barrier: 0, loops: vec![], chain: vec![], cur: None, files: vec![], mute: t.fragment.is_some() } }
    /// the output, and whether rendering succeeded
    pub fn render(mut self) -> Result<(Vec<u8>, bool), &'static str> {
        match self.template(0) { Ok(()) => Ok((self.out.swap_remove(0), true)), Err(Stop::Err(_)) => Ok((self.out.swap_remove(0), false)), Err(Stop::Unknown(s)) => Err(s), _ => Err("break outside of a loop") }
    }
    fn put(&mut self, x: &[u8]) { if !self.mute { self.out.last_mut().unwrap().extend_from_slice(x) } }
    fn find(&self, p: &str) -> usize { let p = match crate::inc::RENAME.with(|r| *r.borrow()) { Some((a, b)) if a == p => b, _ => p }; self.t.files.iter().position(|f| f.path == p).unwrap() }
    /// renders a file together with its parents
    fn template(&mut self, f: usize) -> R<()> {
        let mut chain = vec![f];
        loop {
            let last = chain[chain.len() - 1];
            let Some(p) = self.t.files[last].t.iter().find_map(|t| if let K::Extends(p) = t.k { Some(p) } else { None }) else { break };
            chain.push(self.find(p));
        }
        let root = chain[chain.len() - 1];
        let (oc, ocur) = (std::mem::replace(&mut self.chain, chain), self.cur.take());
        let m = self.vars.len();
        self.files.push(root);
        let n = self.t.files[root].t.len();
        let r = self.exec(root, 0, n);
        self.files.pop();
        self.vars.truncate(m);
        self.chain = oc; self.cur = ocur;
        r
    }
    fn h(&self, sign: u8) -> Ws { if sign == b'-' { Ws::Suppress } else if sign == b'+' { Ws::Preserve } else if sign == b'~' { Ws::Minimize } else { self.t.ws } }
    fn text(&self, f: usize, i: usize, x: &[u8], o: &mut Vec<u8>) -> R<()> {
        let toks = &self.t.files[f].t;
        let prev = if i > 0 { Some(toks[i - 1].r) } else { None };
        let next = toks.get(i + 1).map(|t| t.l);
        // one line break at the end of the file does not count
        let x = if next.is_none() && x.last() == Some(&b'\n') { &x[..x.len() - 1] } else { x };
        let a = x.iter().position(|c| !is_ws(*c)).unwrap_or(x.len());
        if a == x.len() {
            let stronger = |a: Ws, b: Ws| if a == Ws::Suppress || b == Ws::Suppress { Ws::Suppress } else if a == Ws::Minimize || b == Ws::Minimize { Ws::Minimize } else { Ws::Preserve };
            let h = match (prev, next) {
                (None, None) => Ws::Preserve, (None, Some(s)) | (Some(s), None) => self.h(s),
                (Some(l), Some(r)) => {
                    let both = stronger(self.h(l), self.h(r));
                    // one of two sides gives a weaker sign than the default
                    if (l == b' ') != (r == b' ') && self.h(if l == b' ' { r } else { l }) != both && !x.is_empty() { return Err(Stop::Unknown(UNSPECIFIED)) }
                    both
                }
            };
            trim(x, h, o);
        } else {
            let e = x.len() - x.iter().rev().position(|c| !is_ws(*c)).unwrap();
            trim(&x[..a], prev.map_or(Ws::Preserve, |s| self.h(s)), o);
            o.extend_from_slice(&x[a..e]);
            trim(&x[e..], next.map_or(Ws::Preserve, |s| self.h(s)), o);
        }
        Ok(())
    }
    /// the indices of the tags which belong to the one at `i`: its branches and its end
    fn parts(&self, f: usize, i: usize) -> Vec<usize> {
        let t = &self.t.files[f].t; let mut d = 0; let mut v = vec![];
        for (j, x) in t.iter().enumerate().skip(i) {
            match x.k {
                K::If(_) | K::IfLet(..) | K::For(..) | K::Match(_) | K::Macro(..) | K::Block(_) | K::Raw | K::Filter(_) => d += 1,
                K::EndIf | K::EndFor | K::EndMatch | K::EndMacro | K::EndBlock | K::EndRaw | K::EndFilter => { d -= 1; if d == 0 { v.push(j); return v } }
                K::Elif(_) | K::ElifLet(..) | K::Else | K::When(_) if d == 1 => v.push(j),
                _ => {}
            }
        }
        v
    }
    fn scoped(&mut self, f: usize, a: usize, e: usize) -> R<()> { let m = self.vars.len(); let r = self.exec(f, a, e); self.vars.truncate(m); r }
    fn exec(&mut self, f: usize, mut i: usize, end: usize) -> R<()> {
        let t = self.t;
        while i < end {
            let tok = &t.files[f].t[i];
            match &tok.k {
                K::Text(x) => { let mut o = vec![]; self.text(f, i, x, &mut o)?; self.put(&o) }
                K::Ex(e) => if !self.mute { let o = self.output(e)?; self.put(&o) },
                K::If(_) | K::IfLet(..) => {
                    let ps = self.parts(f, i); let mut at = i;
                    for &n in &ps {
                        let m = self.vars.len();
                        let taken = match &t.files[f].t[at].k {
                            K::If(e) | K::Elif(e) => match self.eval(e)? { V::Bool(x) => x, _ => return Err(Stop::Unknown("condition")) },
                            K::IfLet(p, e) | K::ElifLet(p, e) => { let x = self.eval(e)?; self.matches(p, &x)? }
                            _ => true,
                        };
                        if taken { let r = self.exec(f, at + 1, n); self.vars.truncate(m); r?; break }
                        self.vars.truncate(m);
                        at = n;
                    }
                    i = ps[ps.len() - 1];
                }
                K::Match(e) => {
                    let x = self.eval(e)?;
                    let ps = self.parts(f, i);
                    for w in ps.windows(2) {
                        let m = self.vars.len();
                        let taken = match &t.files[f].t[w[0]].k { K::When(p) => self.matches(p, &x)?, _ => true };
                        if taken { let r = self.exec(f, w[0] + 1, w[1]); self.vars.truncate(m); r?; break }
                        self.vars.truncate(m);
                    }
                    i = ps[ps.len() - 1];
                }
                K::For(p, e, c) => {
                    let ps = self.parts(f, i); let stop = ps[ps.len() - 1]; let body = ps[0];
                    let mut items = vec![];
                    let l = self.eval(e)?;
                    for x in iterate(&l)? {
                        let m = self.vars.len();
                        let ok = match c { None => true, Some(c) => { self.matches(p, &x)?; matches!(self.eval(c)?, V::Bool(true)) } };
                        self.vars.truncate(m);
                        if ok { items.push(x) }
                    }
                    let n = items.len();
                    for (k, x) in items.into_iter().enumerate() {
                        let m = self.vars.len();
                        self.matches(p, &x)?;
                        self.loops.push((k, k == 0, k + 1 == n));
                        let r = self.exec(f, i + 1, body);
                        self.loops.pop(); self.vars.truncate(m);
                        match r { Err(Stop::Break) => break, Err(Stop::Continue) | Ok(()) => {} Err(e) => return Err(e) }
                    }
                    if n == 0 && body != stop { self.scoped(f, body + 1, stop)? }
                    i = stop;
                }
                K::Let(p, e) => match (p, e) {
                    (P::N(n), None) => self.vars.push((n, None)),
                    (_, None) => return Err(Stop::Unknown("declaration")),
                    (p, Some(e)) => {
                        let x = self.eval(e)?;
                        if let P::N(n) = p { let bar = self.barrier; if let Some(s) = self.vars[bar..].iter_mut().rev().find(|s| s.0 == *n) { if s.1.is_none() { s.1 = Some(x); i += 1; continue } } self.vars.push((n, Some(x))) } else { self.matches(p, &x)?; }
                    }
                },
                K::Macro(..) => i = self.parts(f, i)[0],
                K::Call(c, n, a) => self.call(f, *c, n, a)?,
                K::Block(n) => { let e = self.parts(f, i)[0]; self.block(n, 0)?; i = e }
                K::Super => { let Some((n, g)) = self.cur else { return Err(Stop::Unknown("super")) }; self.block(n, g + 1)? }
                K::Include(p) => { let p = self.find(p); self.template(p)? }
                K::Filter(fs) => {
                    let e = self.parts(f, i)[0];
                    self.out.push(vec![]);
                    let r = self.scoped(f, i + 1, e);
                    let x = self.out.pop().unwrap();
                    // what was rendered before an error does not get through the filter
                    r?;
                    if self.mute { i = e + 1; continue }
                    let mut x = V::Str(Rc::new(x));
                    for (n, a) in fs { let mut args = vec![x]; for a in a { args.push(self.eval(a)?) } x = self.filter(n, args)? }
                    let raw = matches!(fs[fs.len() - 1].0, "safe" | "escape" | "e");
                    let x = text_of(&x)?; let mut o = vec![];
                    if raw || self.t.text { o = x } else { mr::escape_html(&x, &mut o) }
                    self.put(&o); i = e;
                }
                K::Break => return Err(Stop::Break), K::Continue => return Err(Stop::Continue),
                K::Import(..) | K::Extends(_) | K::Comment(_) => {}
                // no control of whitespace inside: the text belongs to the tags next to it like any other
                K::Raw | K::EndRaw => {}
                K::Elif(_) | K::ElifLet(..) | K::Else | K::EndIf | K::EndFor | K::When(_) | K::EndMatch | K::EndMacro | K::EndBlock | K::EndFilter => return Err(Stop::Unknown("stray tag")),
            }
            i += 1;
        }
        Ok(())
    }
    fn block(&mut self, n: &'static str, gen: usize) -> R<()> {
        let defs: Vec<(usize, usize)> = self.chain.iter().filter_map(|&f| self.t.files[f].t.iter().position(|t| matches!(t.k, K::Block(m) if m == n)).map(|i| (f, i))).collect();
        let Some(&(f, i)) = defs.get(gen) else { return Err(Stop::Unknown("no such block")) };
        let e = self.parts(f, i)[0];
        let (ob, ocur, om) = (self.barrier, self.cur, self.mute);
        if self.t.fragment == Some(n) { self.mute = false }
        self.barrier = self.vars.len(); self.cur = Some((n, gen)); self.files.push(f);
        let r = self.exec(f, i + 1, e);
        self.vars.truncate(self.barrier); self.barrier = ob; self.cur = ocur; self.files.pop(); self.mute = om;
        r
    }
    fn call(&mut self, f: usize, scope: Option<&'static str>, n: &'static str, a: &[E]) -> R<()> {
        // own macros first, then those of the templates around
        let mut cands = vec![f]; cands.extend(self.files.iter().rev());
        let files = &self.t.files;
        let found = match scope {
            None => cands.iter().find_map(|&f| files[f].t.iter().position(|t| matches!(t.k, K::Macro(m, _) if m == n)).map(|i| (f, i))),
            Some(s) => cands.iter().find_map(|&f| files[f].t.iter().find_map(|t| if let K::Import(p, m) = t.k { if m == s { return Some(p) } None } else { None })).and_then(|p| { let f = self.find(p); files[f].t.iter().position(|t| matches!(t.k, K::Macro(m, _) if m == n)).map(|i| (f, i)) }),
        };
        let Some((mf, i)) = found else { return Err(Stop::Unknown("no such macro")) };
        let K::Macro(_, params) = &files[mf].t[i].k else { return Err(Stop::Unknown("macro")) };
        let mut vals: Vec<(&'static str, Option<V>)> = vec![];
        for (k, p) in params.iter().enumerate() {
            let e = a.iter().find_map(|e| match e { E::Na(n, e) if n == p => Some(&**e), _ => None }).unwrap_or_else(|| &a[k]);
            vals.push((p, Some(self.eval(e)?)));
        }
        let m = self.vars.len(); self.vars.extend(vals);
        let e = self.parts(mf, i)[0];
        self.files.push(mf);
        let ol = std::mem::take(&mut self.loops);
        let r = self.exec(mf, i + 1, e);
        self.loops = ol; self.files.pop(); self.vars.truncate(m);
        r
    }
    fn matches(&mut self, p: &P, x: &V) -> R<bool> {
        Ok(match (p, x) {
            (P::Any, _) => true, (P::N(n), x) => { self.vars.push((n, Some(x.clone()))); true }
            (P::L(e), x) => { let l = self.eval(e)?; equal(&l, x)? }
            (P::Or(ps), x) => { for p in ps { if self.matches(p, x)? { return Ok(true) } } false }
            (P::Tu(ps), V::Tup(vs)) => { for (p, x) in ps.iter().zip(vs.iter()) { if !self.matches(p, x)? { return Ok(false) } } true }
            (P::En(n, ps), V::Enum(m, vs)) => { if n.rsplit("::").next() != Some(m) { return Ok(false) } for (p, x) in ps.iter().zip(vs.iter()) { if !self.matches(p, x)? { return Ok(false) } } true }
            (P::St(_, fs), V::Obj(os)) => { for (n, p) in fs { let Some(x) = os.iter().find(|o| o.0 == *n).map(|o| o.1.clone()) else { return Err(Stop::Unknown("field")) }; match p { None => self.vars.push((n, Some(x))), Some(p) => if !self.matches(p, &x)? { return Ok(false) } } } true }
            _ => return Err(Stop::Unknown("pattern")),
        })
    }
    fn filter(&mut self, n: &'static str, a: Vec<V>) -> Rv {
        match (n, a.len()) {
            ("safe", 1) => Ok(V::Safe(Rc::new(text_of(&a[0])?))),
            ("escape" | "e", 1) => { let x = text_of(&a[0])?; let mut o = vec![]; if self.t.text { o = x } else { mr::escape_html(&x, &mut o) } Ok(V::Safe(Rc::new(o))) }
            ("escape" | "e", 2) => { let x = text_of(&a[0])?; let mut o = vec![]; if text_of(&a[1])? == b"txt" { o = x } else { mr::escape_html(&x, &mut o) } Ok(V::Safe(Rc::new(o))) }
            ("join", 2) => { let s = text_of(&a[1])?; let mut o = vec![]; for (i, x) in iterate(&a[0])?.iter().enumerate() { if i > 0 { o.extend_from_slice(&s) } display(x, &mut o)? } Ok(V::Str(Rc::new(o))) }
            _ => filter(self.w, n.as_bytes(), &a),
        }
    }
    /// an expression as it appears in the output
    fn output(&mut self, e: &E) -> R<Vec<u8>> {
        let x = self.eval(e)?;
        let mut x = text_of(&x)?;
        let raw = matches!(e, E::Fi("safe" | "escape" | "e", _)) || self.t.text;
        if !raw { let mut o = vec![]; if self.t.shout { o = x.to_ascii_uppercase() } else { mr::escape_html(&x, &mut o) } x = o }
        Ok(x)
    }
    pub fn eval(&mut self, e: &E) -> Rv {
        Ok(match e {
            E::V("self") => V::Unit,
            E::V(n) => return self.var(n.as_bytes()),
            E::Vb(n) => return self.var(n),
            E::I(n) => V::Int(*n), E::S(t) => mr::vstr(&unescape(t.as_bytes())), E::B(x) => V::Bool(*x), E::C(c) => V::Char(*c as u32), E::Pa(n) => match n.rsplit("::").next() { Some("None") => V::Enum("None", Rc::new(vec![])), Some("Red") => V::Enum("Red", Rc::new(vec![])), Some("Green") => V::Enum("Green", Rc::new(vec![])), Some("SEVEN") => V::Int(7), _ => return Err(Stop::Unknown("path")) },
            E::At(x, n) => {
                if let E::V("self") = **x { return self.w.field(n.as_bytes()).ok_or(Stop::Unknown("field")) }
                match self.eval(x)? { V::Obj(o) => match o.iter().find(|o| o.0 == *n) { Some(o) => o.1.clone(), None => return Err(Stop::Unknown("field")) }, V::Tup(t) => match n.parse().ok().and_then(|i: usize| t.get(i)) { Some(x) => x.clone(), None => return Err(Stop::Unknown("field")) }, _ => return Err(Stop::Unknown("field")) }
            }
            E::Ix(x, i) => match (self.eval(x)?, self.eval(i)?) { (V::List(l), V::Int(i)) if (i as usize) < l.len() => l[i as usize].clone(), _ => return Err(Stop::Unknown("index")) },
            E::Me(x, n, a) => { let x = self.eval(x)?; let mut v = vec![]; for a in a { v.push(self.eval(a)?) } return method(self.w, &x, n.as_bytes(), &v) }
            E::Un(op, x) => match (*op, self.eval(x)?) { ("-", V::Int(n)) => V::Int(-n), ("!", V::Bool(x)) => V::Bool(!x), ("!", V::Int(x)) => V::Int(!x), _ => return Err(Stop::Unknown("operator")) },
            E::Bi("&&", x, y) => match self.eval(x)? { V::Bool(false) => V::Bool(false), V::Bool(true) => return self.eval(y), _ => return Err(Stop::Unknown("operator")) },
            E::Bi("||", x, y) => match self.eval(x)? { V::Bool(true) => V::Bool(true), V::Bool(false) => return self.eval(y), _ => return Err(Stop::Unknown("operator")) },
            E::Bi(op, x, y) => { let x = self.eval(x)?; let y = self.eval(y)?; if let V::Int(n) = y { if matches!(*op, "/" | "%") && n == 0 || matches!(*op, "<<" | ">>") && !(0..=31).contains(&n) { return Err(Stop::Unknown(UNSPECIFIED)) } } return binop(op.as_bytes(), &x, &y) }
            E::Gr(x) | E::Na(_, x) => return self.eval(x),
            E::Fi(n, a) => { let mut v = vec![]; for a in a { v.push(self.eval(a)?) } return self.filter(n, v) }
            E::Tu(a) => { let mut v = vec![]; for a in a { v.push(self.eval(a)?) } V::Tup(Rc::new(v)) }
            E::Ar(a) => { let mut v = vec![]; for a in a { v.push(self.eval(a)?) } V::List(Rc::new(v)) }
            E::Ra(x, y, incl) => match (self.eval(x)?, self.eval(y)?) { (V::Int(a), V::Int(b)) => V::Range(a, if *incl { b + 1 } else { b }), _ => return Err(Stop::Unknown("range")) },
            E::Lp(n) => { let Some(&(i, f, l)) = self.loops.last() else { return Err(Stop::Unknown("loop")) }; match *n { "index" => V::Int(i as i64 + 1), "index0" => V::Int(i as i64), "first" => V::Bool(f), _ => V::Bool(l) } }
            E::Cy(x) => { let Some(&(i, ..)) = self.loops.last() else { return Err(Stop::Unknown("loop")) }; match self.eval(x)? { V::List(l) if !l.is_empty() => l[i % l.len()].clone(), V::List(_) => return Err(Stop::Err(V::Unit)), _ => return Err(Stop::Unknown("cycle")) } }
            E::Try(x) => match self.eval(x)? { V::Enum("Ok", v) => v[0].clone(), V::Enum("Err", v) => return Err(Stop::Err(v[0].clone())), _ => return Err(Stop::Unknown("?")) },
        })
    }
    fn var(&self, n: &[u8]) -> Rv {
        if let Some(s) = self.vars[self.barrier..].iter().rev().find(|s| s.0.as_bytes() == n) { return s.1.clone().ok_or(Stop::Unknown("uninitialised")) }
        self.w.field(n).ok_or(Stop::Unknown("unknown variable"))
    }
}
