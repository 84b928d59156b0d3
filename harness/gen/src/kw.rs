//! P30: what things are called makes no difference
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
fn set(n: &'static str, e: E) -> Tok { t(K::Let(P::N(n), Some(e))) }
/// Rust keywords, names the generated code uses itself, and ordinary ones
pub const NAMES: &[&str] = &["plain", "as", "async", "await", "become", "box", "break", "const", "continue", "do", "dyn", "else", "enum", "extern", "final", "fn", "for", "if", "impl", "in", "let", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "static", "struct", "trait", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "abstract",
    "writer", "expr0", "expr1", "var_writer", "fmt", "askama", "filters", "result", "e", "x", "f", "union", "auto", "endif", "block", "call", "when", "include", "not", "and", "or", "\u{e9}t\u{e9}", "not_loop", "raw"];
const SAME: &str = "the output does not depend on what a variable, parameter, macro or field is called";
fn data(n: &'static str) -> World { World::new(vec![("a", V::Int(3)), ("c", V::Int(5)), (n, V::Int(8)), ("o", sel::opt(1)), ("xs", list(vec![V::Int(1), V::Int(2)])), ("t", V::Tup(Rc::new(vec![V::Int(7), V::Int(8)])))]) }
pub fn names() {
    let n = NAMES[pick(NAMES.len())];
    let k = pick(16);
    // `writer` may be a field, a macro or a block, but not a variable
    if n == "writer" && !matches!(k, 0 | 9 | 15) { return }
    let some = |n| P::En("Some", vec![P::N(n)]);
    let f = match k {
        0 => vec![ex(n), tx("-"), t(K::Ex(bi(v(n), "+", v("a"))))],
        1 => vec![set(n, E::I(4)), ex(n), t(K::Ex(bi(v(n), "+", E::I(1))))],
        2 => vec![t(K::For(P::N(n), v("xs"), None)), ex(n), t(K::Ex(E::Lp("index"))), ex("a"), t(K::EndFor), ex(n)],
        3 => vec![t(K::Macro("m", vec![n, "q"])), ex(n), ex("q"), t(K::If(bi(v("a"), "<", v("c")))), ex(n), t(K::EndIf), t(K::EndMacro), t(K::Call(None, "m", vec![v("a"), v(n)])), t(K::Call(None, "m", vec![E::Na("q", b(v("c"))), E::Na(n, b(bi(v(n), "*", E::I(2))))]))],
        4 => vec![t(K::IfLet(some(n), v("o"))), ex(n), ex("a"), t(K::Else), ex(n), t(K::EndIf)],
        5 => vec![t(K::Match(v("o"))), t(K::When(some(n))), ex(n), ex("a"), t(K::Else), ex(n), t(K::EndMatch)],
        6 => vec![t(K::Let(P::Tu(vec![P::N(n), P::N("k")]), Some(v("t")))), ex(n), ex("k")],
        7 => vec![t(K::Let(P::N(n), None)), t(K::If(bi(v("a"), "<", v("c")))), set(n, E::I(21)), t(K::Else), set(n, v("a")), t(K::EndIf), ex(n)],
        8 => vec![t(K::For(P::N("k"), v("xs"), Some(bi(bi(v("k"), "+", E::I(0)), "<", v(n))))), ex("k"), ex(n), t(K::Else), ex(n), t(K::EndFor)],
        9 => vec![t(K::Macro(n, vec!["q"])), tx("M"), ex("q"), t(K::EndMacro), t(K::Call(None, n, vec![v("a")])), ex(n)],
        10 => vec![t(K::Block(n)), ex(n), set(n, E::I(2)), ex(n), t(K::EndBlock), ex(n)],
        11 => vec![set(n, v("a")), t(K::Filter(vec![("mark", vec![])])), ex(n), set(n, E::I(5)), ex(n), t(K::EndFilter), ex(n)],
        12 => vec![t(K::For(P::N("k"), E::Ar(vec![v(n), v("a")]), None)), t(K::For(P::N(n), v("xs"), None)), ex("k"), ex(n), t(K::Ex(E::Lp("last"))), t(K::EndFor), t(K::Ex(E::Lp("first"))), ex("k"), t(K::Else), ex(n), t(K::EndFor)],
        13 => vec![set(n, E::Fi("upper", vec![v("a")])), ex(n), t(K::Ex(E::Fi("wrap", vec![v("c"), v(n)])))],
        14 => vec![set("k", v(n)), set(n, bi(v("k"), "+", E::I(1))), ex("k"), ex(n), set("k", v(n)), ex("k")],
        _ => vec![t(K::Ex(E::Me(b(v("self")), "sub", vec![v(n), v("a")]))), t(K::Ex(E::At(b(v("self")), n)))],
    };
    decide(&one(f), None, "", || data(n), SAME)
}
