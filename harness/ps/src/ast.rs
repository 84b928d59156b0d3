//! Serialisation of the public AST, and an independent reference parser for expressions.
use askama_parser::{Ast, Expr, Node, Syntax};
use askama_parser::node::Lit;

pub fn parse(s: &str) -> Option<Ast<'_>> { Ast::from_str(s, None, &Syntax::default()).ok() }
fn p(o: &mut Vec<u8>, s: &str) { o.extend_from_slice(s.as_bytes()) }
fn list(o: &mut Vec<u8>, v: &[Expr<'_>]) { for e in v { o.push(b' '); show(e, o) } }
pub fn show(e: &Expr<'_>, o: &mut Vec<u8>) {
    match e {
        Expr::BoolLit(s) => { p(o, "bool:"); p(o, s) }
        Expr::NumLit(s) => { p(o, "num:"); p(o, s) }
        Expr::StrLit(s) => { p(o, "str:"); p(o, s) }
        Expr::CharLit(s) => { p(o, "chr:"); p(o, s) }
        Expr::Var(s) => { p(o, "var:"); p(o, s) }
        Expr::Path(v) => { p(o, "path"); for s in v { p(o, "::"); p(o, s) } }
        Expr::Array(v) => { p(o, "[array"); list(o, v); p(o, "]") }
        Expr::Attr(x, n) => { p(o, "(attr "); show(x, o); p(o, " "); p(o, n); p(o, ")") }
        Expr::Index(x, y) => { p(o, "(index "); show(x, o); p(o, " "); show(y, o); p(o, ")") }
        Expr::Filter(f) => { p(o, "(filter "); p(o, f.name); list(o, &f.arguments); p(o, ")") }
        Expr::NamedArgument(n, x) => { p(o, "(named "); p(o, n); p(o, " "); show(x, o); p(o, ")") }
        Expr::Unary(op, x) => { p(o, "(un"); p(o, op); p(o, " "); show(x, o); p(o, ")") }
        Expr::BinOp(op, x, y) => { p(o, "(bin"); p(o, op); p(o, " "); show(x, o); p(o, " "); show(y, o); p(o, ")") }
        Expr::Range(op, x, y) => { p(o, "(range"); p(o, op); for z in [x, y] { p(o, " "); match z { Some(z) => show(z, o), None => p(o, "_") } } p(o, ")") }
        Expr::Group(x) => { p(o, "(group "); show(x, o); p(o, ")") }
        Expr::Tuple(v) => { p(o, "(tuple"); list(o, v); p(o, ")") }
        Expr::Call(x, v) => { p(o, "(call "); show(x, o); list(o, v); p(o, ")") }
        Expr::RustMacro(v, a) => { p(o, "(macro"); for s in v { p(o, "::"); p(o, s) } p(o, " "); p(o, a); p(o, ")") }
        Expr::Try(x) => { p(o, "(try "); show(x, o); p(o, ")") }
        _ => p(o, "?"),
    }
}
pub fn lit_of(l: &Lit<'_>, o: &mut Vec<u8>) { p(o, l.lws); p(o, l.val); p(o, l.rws) }
/// the expression of a template which consists of one expression tag
pub fn only_expr(s: &str) -> Option<Vec<u8>> {
    let ast = parse(s)?;
    match ast.nodes() { [Node::Expr(_, e)] => { let mut o = vec![]; show(e, &mut o); Some(o) } _ => Some(b"not one expression".to_vec()) }
}

/// Reference parser for a documented subset of expressions, with Rust's precedence; None: outside of the subset.
pub struct R<'a> { b: &'a [u8], i: usize }
type O = Option<Vec<u8>>;
const OPS: &[(&[u8], u8)] = &[(b"||", 1), (b"&&", 2), (b"==", 3), (b"!=", 3), (b">=", 3), (b"<=", 3), (b">>", 7), (b"<<", 7), (b">", 3), (b"<", 3), (b"|", 4), (b"^", 5), (b"&", 6), (b"+", 8), (b"-", 8), (b"*", 9), (b"/", 9), (b"%", 9)];
impl<'a> R<'a> {
    pub fn all(b: &'a [u8]) -> O { let mut r = R { b, i: 0 }; r.ws(); let e = r.range()?; r.ws(); if r.i == b.len() { Some(e) } else { None } }
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\r' | b'\n') { self.i += 1 } }
    fn at(&self, k: usize) -> u8 { if self.i + k < self.b.len() { self.b[self.i + k] } else { 0 } }
    fn lit(&mut self, s: &[u8]) -> bool { for (k, &c) in s.iter().enumerate() { if self.at(k) != c { return false } } self.i += s.len(); true }
    fn range(&mut self) -> O {
        self.ws();
        if self.at(0) == b'.' && self.at(1) == b'.' { return self.range_right(b"_".to_vec()) }
        let l = self.bin(1)?;
        self.ws();
        if self.at(0) == b'.' && self.at(1) == b'.' { return self.range_right(l) }
        Some(l)
    }
    fn range_right(&mut self, l: Vec<u8>) -> O {
        let op: &[u8] = if self.lit(b"..=") { b"..=" } else { self.i += 2; b".." };
        if self.at(0) == b'.' || self.at(0) == b'=' { return None }
        self.ws();
        let c = self.at(0);
        let r = if c == 0 || c == b')' || c == b']' || c == b',' { b"_".to_vec() } else { self.bin(1)? };
        Some([b"(range", op, b" ", &l, b" ", &r, b")"].concat())
    }
    /// operators of at least level `min`, left associative
    fn bin(&mut self, min: u8) -> O {
        if min > 9 { return self.filtered() }
        let mut l = self.bin(min + 1)?;
        loop {
            let save = self.i;
            self.ws();
            let mut found = None;
            for (o, lv) in OPS { let j = self.i; if self.lit(o) { if *lv == min { found = Some(*o) } else { self.i = j } break } }
            let Some(op) = found else { self.i = save; return Some(l) };
            // an operator directly followed by another operator character is outside of the subset
            if matches!(self.at(0), b'|' | b'&' | b'=' | b'<' | b'>' | b'^' | b'+' | b'*' | b'/' | b'%') { return None }
            self.ws();
            let r = self.bin(min + 1)?;
            l = [b"(bin", op, b" ", &l, b" ", &r, b")"].concat();
        }
    }
    fn filtered(&mut self) -> O {
        let mut e = self.prefix()?;
        let mut filtered = false;
        loop {
            // a filter's bar follows its operand directly
            if self.at(0) == b'|' && self.at(1) != b'|' {
                self.i += 1;
                let n = self.ident()?;
                let mut t = [b"(filter ", n, b" ", &e].concat();
                let save = self.i;
                if self.at(0) == b'(' { for a in self.args(b')')? { t.push(b' '); t.extend(a) } } else { self.ws(); if self.at(0) == b'(' { return None } self.i = save }
                t.push(b')'); e = t; filtered = true;
            } else { break }
        }
        if filtered { let save = self.i; self.ws(); if self.i > save && self.at(0) == b'|' { return None } self.i = save; }
        Some(e)
    }
    fn prefix(&mut self) -> O {
        self.ws();
        let c = self.at(0);
        if c == b'!' || c == b'-' { self.i += 1; let e = self.prefix()?; return Some([b"(un", &[c][..], b" ", &e, b")"].concat()) }
        self.suffix()
    }
    fn suffix(&mut self) -> O {
        let mut e = self.primary()?;
        loop {
            let save = self.i;
            self.ws();
            let c = self.at(0);
            if c == b'.' && self.at(1) != b'.' {
                self.i += 1; self.ws();
                let n: &[u8] = if self.at(0).is_ascii_digit() { let j = self.i; self.i += 1; if self.at(0).is_ascii_alphanumeric() || self.at(0) == b'_' || self.at(0) == b'.' { return None } &self.b[j..self.i] } else { self.ident()? };
                e = [b"(attr ", &e[..], b" ", n, b")"].concat();
            } else if c == b'[' {
                self.i += 1; let x = self.range()?; self.ws(); if !self.lit(b"]") { return None }
                e = [b"(index ", &e[..], b" ", &x, b")"].concat();
            } else if c == b'(' {
                let mut t = [b"(call ", &e[..]].concat();
                for a in self.args(b')')? { t.push(b' '); t.extend(a) }
                t.push(b')'); e = t;
            } else if c == b'?' { self.i += 1; e = [b"(try ", &e[..], b")"].concat() }
            else if c == b'!' && { let mut k = 1; while self.at(k) == b' ' { k += 1 } self.at(k) == b'(' } { return None } // Rust macro calls: not in the subset
            else { self.i = save; return Some(e) }
        }
    }
    fn args(&mut self, close: u8) -> Option<Vec<Vec<u8>>> {
        self.i += 1;
        let mut v = vec![];
        self.ws();
        if self.at(0) == close { self.i += 1; return Some(v) }
        loop {
            v.push(self.range()?);
            self.ws();
            let c = self.at(0); self.i += 1;
            if c == close { return Some(v) }
            if c != b',' { return None }
            self.ws();
            if self.at(0) == close { self.i += 1; return Some(v) }
        }
    }
    fn ident(&mut self) -> Option<&'a [u8]> {
        let j = self.i;
        if !self.at(0).is_ascii_lowercase() { return None }
        while self.at(0).is_ascii_lowercase() || self.at(0).is_ascii_digit() || self.at(0) == b'_' { self.i += 1 }
        if self.at(0).is_ascii_uppercase() || self.at(0) >= 128 { return None }
        Some(&self.b[j..self.i])
    }
    fn primary(&mut self) -> O {
        let c = self.at(0);
        if c.is_ascii_digit() {
            let j = self.i;
            while self.at(0).is_ascii_digit() { self.i += 1 }
            if self.at(0).is_ascii_alphabetic() || self.at(0) == b'_' || self.at(0) >= 128 { return None }
            if self.at(0) == b'.' && self.at(1) != b'.' { return None }
            return Some([b"num:", &self.b[j..self.i]].concat())
        }
        if c == b'(' {
            self.i += 1; self.ws();
            if self.lit(b")") { return Some(b"(tuple)".to_vec()) }
            let e = self.range()?; self.ws();
            if self.lit(b")") { return Some([b"(group ", &e[..], b")"].concat()) }
            let mut t = [b"(tuple ", &e[..]].concat();
            loop {
                if !self.lit(b",") { return None }
                self.ws();
                if self.lit(b")") { t.push(b')'); return Some(t) }
                t.push(b' '); t.extend(self.range()?); self.ws();
                if self.lit(b")") { t.push(b')'); return Some(t) }
            }
        }
        if c == b'[' { let mut t = b"[array".to_vec(); for a in self.args(b']')? { t.push(b' '); t.extend(a) } t.push(b']'); return Some(t) }
        let n = self.ident()?;
        if self.at(0) == b':' { return None }
        let save = self.i; self.ws(); if self.at(0) == b':' { return None } self.i = save;
        if n == b"true" || n == b"false" { return Some([b"bool:", n].concat()) }
        Some([b"var:", n].concat())
    }
}
