//! P20: variables
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
fn data() -> World { World::new(vec![("a", V::Int(3)), ("b", V::Int(5)), ("s", st("x<y")), ("p", sel::boolean()), ("q", sel::boolean()), ("o", sel::opt(1)), ("xs", list(vec![V::Int(1), V::Int(2)])), ("t", V::Tup(Rc::new(vec![V::Int(7), V::Int(8)]))), ("zs", list(vec![]))]) }
fn set(n: &'static str, e: E) -> Tok { t(K::Let(P::N(n), Some(e))) }
/// statements which set or show variables
fn statement(k: usize, n: usize) -> Vec<Tok> {
    let lit = [11, 12, 13, 14, 15][n % 5];
    match k {
        0 => vec![set("a", E::I(lit))],
        1 => vec![set("v", bi(v("a"), "+", E::I(lit)))],
        2 => vec![ex("a"), tx(","), ex("v"), tx(";")],
        3 => vec![t(K::If(v("p"))), set("a", E::I(lit)), ex("a"), t(K::Else), ex("v"), set("v", v("a")), ex("v"), t(K::EndIf)],
        4 => vec![t(K::For(P::N("a"), v("xs"), None)), ex("a"), set("v", v("a")), ex("v"), t(K::EndFor)],
        5 => vec![t(K::Let(P::Tu(vec![P::N("a"), P::N("v")]), Some(v("t"))))],
        6 => vec![t(K::IfLet(P::En("Some", vec![P::N("v")]), v("o"))), ex("v"), set("a", v("v")), ex("a"), t(K::EndIf)],
        7 => vec![t(K::Match(v("o"))), t(K::When(P::En("Some", vec![P::N("a")]))), set("v", bi(v("a"), "+", E::I(lit))), ex("v"), t(K::Else), ex("a"), t(K::EndMatch)],
        8 => vec![t(K::Call(None, "m", vec![bi(v("a"), "+", E::I(0))]))],
        9 => vec![set("v", v("v")), set("a", v("a")), ex("a")],
        10 => vec![t(K::Filter(vec![("mark", vec![])])), set("a", E::I(lit)), ex("a"), t(K::EndFilter), ex("a")],
        11 => vec![t(K::Let(P::N("w"), None)), t(K::If(v("q"))), set("w", E::I(lit)), t(K::Else), set("w", v("a")), t(K::EndIf), ex("w")],
        12 => vec![t(K::For(P::N("x"), v("xs"), Some(bi(v("x"), "<", v("a"))))), set("a", bi(v("x"), "+", v("a"))), ex("a"), t(K::EndFor)],
        13 => vec![t(K::For(P::N("v"), v("zs"), None)), t(K::Else), set("v", E::I(lit)), ex("v"), t(K::EndFor), ex("v")],
        _ => vec![t(K::Block(["b0", "b1", "b2", "b3"][n % 4])), set("a", E::I(lit)), ex("a"), t(K::EndBlock), ex("a")],
    }
}
/// sequences of statements which set, shadow and show two variables
pub fn let_sequences() {
    let mut f = vec![t(K::Macro("m", vec!["z"])), set("a", bi(v("z"), "+", E::I(1))), ex("a"), tx("/"), ex("z"), t(K::EndMacro), set("v", E::I(10))];
    for n in 0..bound(3, 4) { f.extend(statement(pick(15), n)) }
    f.extend(statement(2, 0));
    decide(&one(f), None, "", data, "a name stands for the innermost variable set before, else for the field")
}
/// the same with the names of the variables chosen freely, Rust keywords included
pub fn let_names() {
    const N: &[&str] = &["a", "v", "type", "match", "async", "x1", "s"];
    let (n, m) = (N[pick(N.len())], N[pick(N.len())]);
    let mut f = vec![set(n, E::I(4)), set(m, bi(v(n), "+", E::I(1))), ex(n), tx(" "), ex(m)];
    match pick(6) {
        0 => f.extend([t(K::For(P::N(n), v("xs"), None)), ex(n), ex(m), t(K::EndFor)]),
        1 => f.extend([t(K::IfLet(P::En("Some", vec![P::N(m)]), v("o"))), ex(m), t(K::EndIf), ex(m)]),
        2 => f.extend([t(K::Let(P::N("w"), None)), t(K::If(v("p"))), set("w", v(n)), t(K::Else), set("w", v(m)), t(K::EndIf), ex("w")]),
        3 => f.extend([t(K::Let(P::Tu(vec![P::N(m), P::Any]), Some(v("t")))), ex(m), ex(n)]),
        4 => f.extend([t(K::If(v("p"))), set(n, v("b")), ex(n), t(K::EndIf), ex(n)]),
        _ => f.extend([t(K::Let(P::N("else_"), None)), set("else_", v(n)), ex("else_")]),
    }
    decide(&one(f), None, "", data, "variables keep their value whatever they are called")
}
/// the parts of a construct that binds a variable; between any two of them something can be put
fn binding(k: usize, n: &'static str, lit: i64) -> Vec<Vec<Tok>> {
    let some = || P::En("Some", vec![P::N(n)]);
    let all = |k: Vec<K>| k.into_iter().map(t).collect::<Vec<_>>();
    let with = |x: K| vec![t(x), set(n, E::I(lit))];
    match k {
        0 => vec![all(vec![K::For(P::N(n), v("xs"), None)]), all(vec![K::Else]), all(vec![K::EndFor])],
        1 => vec![all(vec![K::For(P::N(n), v("zs"), None)]), all(vec![K::Else]), all(vec![K::EndFor])],
        2 => vec![all(vec![K::For(P::N(n), v("xs"), Some(bi(v(n), "<", v("b"))))]), all(vec![K::EndFor])],
        3 => vec![all(vec![K::IfLet(some(), v("o"))]), all(vec![K::Elif(bi(v(n), "==", v("a")))]), all(vec![K::Else]), all(vec![K::EndIf])],
        4 => vec![all(vec![K::If(bi(v(n), ">", E::I(3)))]), all(vec![K::ElifLet(some(), v("o"))]), all(vec![K::Else]), all(vec![K::EndIf])],
        5 => vec![all(vec![K::Match(v("o")), K::When(some())]), all(vec![K::When(P::En("None", vec![]))]), all(vec![K::EndMatch])],
        6 => vec![all(vec![K::Match(v("o")), K::When(some())]), all(vec![K::Else]), all(vec![K::EndMatch])],
        7 => vec![with(K::If(v("p"))), with(K::Elif(v("q"))), all(vec![K::Else]), all(vec![K::EndIf])],
        8 => vec![all(vec![K::If(v("p"))]), with(K::Else), all(vec![K::EndIf])],
        9 => vec![with(K::Filter(vec![("mark", vec![])])), all(vec![K::EndFilter])],
        10 => vec![with(K::For(P::Any, v("xs"), None)), with(K::Else), all(vec![K::EndFor])],
        11 => vec![all(vec![K::Let(P::Tu(vec![P::N(n), P::Any]), Some(v("t")))]), vec![]],
        12 => vec![with(K::Block("b0")), all(vec![K::EndBlock])],
        _ => vec![with(K::Macro("m", vec![n])), vec![t(K::EndMacro), t(K::Call(None, "m", vec![bi(v(n), "+", E::I(50))]))]],
    }
}
/// any two constructs which bind a variable, one in any part of the other or behind it: what the names of two fields mean everywhere
pub fn let_scopes() {
    let (n, m) = (["a", "b"][pick(2)], ["a", "b"][pick(2)]);
    let (outer, inner) = (pick(14), pick(12));
    let o = binding(outer, n, 61);
    let at = pick(o.len());
    let show = |f: &mut Vec<Tok>| f.extend([ex("a"), tx(","), ex("b"), tx(";")]);
    let mut f = vec![];
    if outer < 12 && flag() { f.push(set("b", E::I(9))) }
    let last = o.len() - 1;
    for (i, part) in o.into_iter().enumerate() {
        f.extend(part);
        show(&mut f);
        if i == at {
            let (mut inn, k) = (vec![], if i == last { 1 } else { 0 });
            for part in binding(inner, m, 70 + k) { inn.extend(part); show(&mut inn) }
            f.extend(inn);
        }
    }
    decide(&one(f), None, "", data, "a name stands for the innermost variable visible at its place, else for the field")
}
