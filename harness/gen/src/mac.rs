//! P21: macros
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
fn set(n: &'static str, e: E) -> Tok { t(K::Let(P::N(n), Some(e))) }
fn call(n: &'static str, a: Vec<E>) -> Tok { t(K::Call(None, n, a)) }
fn data() -> World { World::new(vec![("a", V::Int(3)), ("b", V::Int(5)), ("s", st("x<y")), ("p", sel::boolean()), ("o", sel::opt(1)), ("xs", list(vec![V::Int(1), V::Int(2)])), ("n", obj(vec![("x", V::Int(11)), ("y", st("in"))]))]) }
/// names of two parameters: new names, those of fields, those of variables around the call
const PARAMS: [[&str; 2]; 6] = [["x", "y"], ["a", "b"], ["b", "a"], ["v", "w"], ["w", "v"], ["x", "v"]];
const ARGS: usize = 9;
fn arg(k: usize) -> E {
    match k { 0 => v("a"), 1 => v("v"), 2 => v("w"), 3 => E::I(4), 4 => bi(v("v"), "+", E::I(20)), 5 => E::At(b(v("n")), "x"), 6 => E::Gr(b(bi(v("a"), "*", v("w")))), 7 => v("b"), _ => E::Me(b(v("self")), "twice", vec![v("v")]) }
}
const BODIES: usize = 11;
fn body(k: usize, p: [&'static str; 2]) -> Vec<Tok> {
    let [x, y] = p;
    let some = |n| P::En("Some", vec![P::N(n)]);
    match k {
        0 => vec![ex(x), tx("-"), ex(y), tx("-"), ex(x)],
        1 => vec![set("k", bi(v(x), "+", E::I(1))), ex("k"), ex(y), set(x, bi(v(y), "+", v(x))), ex(x), ex(y)],
        2 => vec![t(K::For(P::N("k"), v("xs"), None)), ex("k"), ex(x), t(K::Ex(E::Lp("index"))), t(K::EndFor), ex(y)],
        3 => vec![t(K::If(bi(v(x), "<", v(y)))), ex(x), t(K::Else), tx("E"), ex(y), t(K::EndIf)],
        4 => vec![t(K::IfLet(some(y), v("o"))), ex(y), ex(x), t(K::EndIf), ex(y)],
        5 => vec![call("inner", vec![v(y), v(x)]), tx("/"), ex(x), ex(y)],
        6 => vec![set("v", E::I(70)), set("a", E::I(71)), ex(x), tx(","), ex(y), tx(","), ex("v"), tx(","), ex("a")],
        7 => vec![t(K::For(P::N("v"), v("xs"), None)), ex(x), ex(y), ex("v"), t(K::EndFor), t(K::Match(v("o"))), t(K::When(some("w"))), ex(x), ex(y), ex("w"), t(K::Else), ex(y), t(K::EndMatch), ex(x)],
        8 => vec![t(K::Filter(vec![("mark", vec![])])), ex(x), set("w", bi(v(x), "+", E::I(50))), ex("w"), ex(y), t(K::EndFilter), ex(y)],
        9 => vec![set("w", bi(v(x), "+", E::I(80))), call("inner", vec![v("w"), v(y)]), tx("/"), ex("w"), ex(x)],
        _ => { let u = if x == "v" || y == "v" { "u" } else { "v" }; vec![t(K::Let(P::N(u), None)), t(K::If(v("p"))), set(u, bi(v(x), "+", E::I(60))), t(K::Else), set(u, v(y)), t(K::EndIf), ex(u), ex(x), ex(y)] }
    }
}
fn macros(k: usize, p: [&'static str; 2]) -> Vec<Tok> {
    let mut f = vec![t(K::Macro("m", p.to_vec()))];
    f.extend(body(k, p));
    f.extend([t(K::EndMacro), t(K::Macro("inner", vec!["y", "v"])), tx("("), ex("y"), set("w", bi(v("y"), "+", v("v"))), ex("v"), ex("w"), ex("y"), tx(")"), t(K::EndMacro)]);
    f
}
fn args(style: usize, p: [&'static str; 2], x: E, y: E) -> Vec<E> {
    match style { 0 => vec![x, y], 1 => vec![x, E::Na(p[1], b(y))], 2 => vec![E::Na(p[1], b(y)), E::Na(p[0], b(x))], _ => vec![E::Na(p[0], b(x)), E::Na(p[1], b(y))] }
}
const LABEL: &str = "a macro renders with its parameters standing for the values passed, and leaves the variables of the caller alone";
fn locals() -> Vec<Tok> { vec![set("v", E::I(30)), set("w", E::I(40))] }
/// what is passed, and how
pub fn macro_args() {
    let p = PARAMS[pick(PARAMS.len())];
    let k = [0, 5, 6, 7][pick(4)];
    let mut f = macros(k, p);
    f.extend(locals());
    let (x, y, s) = (arg(pick(ARGS)), arg(pick(ARGS)), pick(4));
    f.push(call("m", args(s, p, x, y)));
    f.extend([tx(";"), ex("v"), ex("w"), ex("a")]);
    decide(&one(f), None, "", data, LABEL)
}
/// what the macro does, and where it is called
pub fn macro_bodies() {
    let p = PARAMS[pick(PARAMS.len())];
    let k = pick(BODIES);
    let (x, y) = match pick(6) { 0 => (v("v"), v("w")), 1 => (v("w"), v("v")), 2 => (v("a"), E::I(4)), 3 => (bi(v("w"), "+", E::I(1)), v("v")), 4 => (v("w"), E::At(b(v("n")), "x")), _ => (v("v"), v("v")) };
    let m = macros(k, p);
    let c = |x: &E, y: &E| call("m", vec![x.clone(), y.clone()]);
    let end = vec![tx(";"), ex("v"), ex("w"), ex("a")];
    let top = |f: Vec<Tok>| one([m.clone(), locals(), f, end.clone()].concat());
    let tpl = match pick(8) {
        0 => top(vec![t(K::For(P::N("v"), v("xs"), None)), c(&x, &y), ex("v"), t(K::EndFor)]),
        1 => top(vec![c(&x, &y), set("v", v("b")), c(&y, &x)]),
        2 => top(vec![t(K::IfLet(P::En("Some", vec![P::N("w")]), v("o"))), c(&x, &y), ex("w"), t(K::EndIf)]),
        3 => one([m.clone(), vec![t(K::Macro("outer", vec!["w", "v"])), set("k", v("v")), c(&x, &y), ex("w"), ex("v"), ex("k"), t(K::EndMacro)], locals(), vec![call("outer", vec![v("a"), E::I(6)]), tx("|"), call("outer", vec![v("v"), v("w")])], end.clone()].concat()),
        4 => one([vec![t(K::Block("u"))], locals(), vec![c(&x, &y)], end.clone(), vec![t(K::EndBlock)], m.clone()].concat()),
        5 => top(vec![t(K::Filter(vec![("mark", vec![])])), c(&x, &y), t(K::EndFilter), c(&y, &x)]),
        6 => many(vec![fl("t.html", [vec![t(K::Import("i.html", "q"))], locals(), vec![t(K::Call(Some("q"), "m", vec![x, y]))], end.clone(), vec![t(K::Macro("inner", vec!["y", "v"])), tx("no"), t(K::EndMacro)]].concat()), fl("i.html", m.clone())]),
        _ => many(vec![fl("t.html", [m.clone(), locals(), vec![t(K::Include("i.html"))], end.clone()].concat()), fl("i.html", vec![c(&x, &y), set("v", E::I(90)), c(&x, &y)])]),
    };
    decide(&tpl, None, "", data, LABEL)
}
/// arguments with side effects are evaluated once, those of loops when the macro is called
pub fn macro_effects() {
    let p = PARAMS[pick(PARAMS.len())];
    let k = [0, 1, 2, 3, 5][pick(5)];
    let effect = E::Me(b(v("self")), "next", vec![]);
    let pair = |e: E| E::Tu(vec![e, v("a")]);
    let (x, y) = match pick(10) {
        5 => (E::At(b(pair(effect)), "0"), v("v")), 6 => (v("w"), E::At(b(pair(effect)), "1")), 7 => (E::At(b(pair(effect.clone())), "0"), E::At(b(E::At(b(E::Tu(vec![v("a"), pair(effect)])), "1")), "0")),
        8 => (E::Ix(b(E::Ar(vec![effect, v("a")])), b(E::I(0))), v("v")), 9 => (E::At(b(E::Ix(b(E::Ar(vec![pair(effect), pair(v("b"))])), b(E::I(0)))), "0"), v("v")),
        0 => (effect, v("v")), 1 => (v("v"), bi(effect, "+", v("a"))), 2 => (E::Lp("index"), v("v")), 3 => (bi(E::Lp("index0"), "+", v("w")), E::Gr(b(effect))), _ => (E::Lp("index"), E::Cy(b(E::Ar(vec![E::I(7), v("w")])))) };
    let s = pick(4);
    let mut f = macros(k, p);
    f.extend(locals());
    f.extend([t(K::For(P::N(["v", "x", "k"][pick(3)]), v("xs"), None)), call("m", args(s, p, x, y)), t(K::Ex(E::Lp("index"))), t(K::EndFor), t(K::Ex(E::Me(b(v("self")), "next", vec![])))]);
    decide(&one(f), None, "", data, LABEL)
}

/// macros with no, one or three parameters, which set variables, and call each other
pub fn macro_counts() {
    const NAMES: [&str; 5] = ["v", "a", "x", "w", "b"];
    let count = [0, 1, 3][pick(3)];
    let p: Vec<&'static str> = match count { 0 => vec![], 1 => vec![NAMES[pick(5)]], _ => { let k = pick(bound(5, 10)); vec![NAMES[k % 5], NAMES[(k + 1 + k / 5) % 5], NAMES[(k + 3) % 5]] } };
    let z = ["v", "a", "k", "w"][pick(4)];
    let shown = |f: &mut Vec<Tok>| for n in &p { f.push(ex(n)); f.push(tx(",")) };
    let mut m = vec![t(K::Macro("m", p.clone()))];
    shown(&mut m);
    match pick(5) {
        0 => m.extend([set(z, E::I(70)), ex(z)]),
        1 => m.extend([t(K::For(P::N(z), v("xs"), None)), ex(z), t(K::EndFor), ex("a")]),
        2 => m.extend([t(K::If(v("p"))), set(z, E::I(60)), ex(z), t(K::EndIf)]),
        3 => m.extend([call("inner", vec![]), set(z, E::I(50)), call("inner", vec![]), ex(z)]),
        _ => m.extend([t(K::Let(P::N("k"), None)), t(K::If(v("p"))), set("k", E::I(60)), t(K::Else), set("k", v("a")), t(K::EndIf), ex("k")]),
    }
    shown(&mut m);
    m.extend([t(K::EndMacro), t(K::Macro("inner", vec![])), tx("("), ex("a"), set("b", bi(v("a"), "+", E::I(500))), ex("b"), tx(")"), t(K::EndMacro)]);
    let a: Vec<E> = p.iter().enumerate().map(|(i, _)| match i { 0 => arg([1, 5, 4, 0, 3][pick(bound(3, 5))]), 1 => arg(2), _ => arg([1, 7][pick(bound(1, 2))]) }).collect();
    let c = |rev: bool| -> Tok {
        if p.is_empty() || !rev { return call("m", a.clone()) }
        call("m", p.iter().zip(&a).rev().map(|(n, e)| E::Na(n, b(e.clone()))).collect())
    };
    let end = vec![tx(";"), ex("v"), ex("w"), ex("a"), ex("b")];
    let f = match pick(4) {
        0 => vec![c(false), tx("|"), c(true)],
        1 => vec![t(K::For(P::N("v"), v("xs"), None)), c(true), ex("v"), t(K::EndFor)],
        2 => vec![t(K::If(v("p"))), c(false), t(K::Else), ex("v"), c(true), t(K::EndIf)],
        _ => vec![set("u", v("w")), c(true), set("w", E::I(41)), c(false), ex("u")],
    };
    decide(&one([m, locals(), f, end].concat()), None, "", data, LABEL)
}
