//! P10: loops
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
fn li(n: &'static str) -> Tok { t(K::Ex(E::Lp(n))) }
fn seq(max: usize) -> V { let n = pick(max + 1); list((0..n).map(|_| sel::small(3)).collect()) }
fn data() -> World { World::new(vec![("a", V::Int(3)), ("b", V::Int(1)), ("p", sel::boolean()), ("o", sel::opt(1)), ("xs", seq(2)), ("ys", seq(2)), ("ps", list(vec![V::Tup(Rc::new(vec![V::Int(1), st("q")])), V::Tup(Rc::new(vec![V::Int(2), st("r")]))]))]) }
fn zero(n: &'static str) -> E { bi(v(n), "+", E::I(0)) }
fn source(k: usize) -> E { match k { 0 => v("xs"), 1 => E::Ra(b(E::I(0)), b(v("a")), false), 2 => E::Ra(b(v("b")), b(bi(v("b"), "+", E::I(1))), true), 3 => E::Ar(vec![v("b"), E::I(6), v("a")]), 4 => E::Me(b(E::Ar(vec![v("a"), v("b")])), "iter", vec![]), 5 => E::Me(b(E::Me(b(v("self")), "upto", vec![bi(v("b"), "+", E::I(1))])), "iter", vec![]), _ => E::Gr(b(E::Ra(b(E::I(2)), b(E::I(4)), false))) } }
fn facts() -> Vec<Tok> { vec![ex("x"), li("index"), li("index0"), t(K::If(E::Lp("first"))), tx("f"), t(K::EndIf), t(K::If(E::Un("!", b(E::Lp("last"))))), tx(";"), t(K::EndIf)] }
const LOOP: &str = "a loop renders its body once for every item that passes the condition, with the loop variables counting these";
/// one loop: source, condition, what happens in it, else
pub fn loops() {
    let src = source(pick(7));
    let cond = match pick(5) { 0 => None, 1 => Some(bi(zero("x"), ">", v("b"))), 2 => Some(bi(bi(zero("x"), "!=", E::I(2)), "||", v("p"))), 3 => Some(E::Un("!", b(v("p")))), _ => Some(bi(bi(bi(E::Gr(b(zero("x"))), "%", E::I(2)), "==", E::I(0)), "&&", bi(v("a"), ">", v("b")))) };
    let if_x = |n, k: K| vec![t(K::If(bi(zero("x"), "==", E::I(n)))), t(k), t(K::EndIf)];
    let body = match pick(6) {
        0 => facts(),
        1 => [facts(), if_x(1, K::Continue), vec![tx("|")], if_x(2, K::Break), facts()].concat(),
        2 => [vec![t(K::Ex(E::Cy(b(E::Ar(vec![E::S("u"), E::S("v"), E::S("w")])))))], facts()].concat(),
        3 => [vec![t(K::If(E::Lp("first"))), tx("1st"), t(K::Elif(E::Lp("last"))), tx("last"), t(K::Else), li("index"), t(K::EndIf)]].concat(),
        4 => [vec![t(K::Let(P::N("i"), Some(E::Lp("index0")))), ex("i"), t(K::Match(v("o"))), t(K::When(P::En("Some", vec![P::N("k")]))), t(K::Break), t(K::Else), li("index"), t(K::Continue), t(K::EndMatch), tx("no")]].concat(),
        _ => [vec![t(K::Filter(vec![("mark", vec![])]))], facts(), vec![t(K::EndFilter)]].concat(),
    };
    let mut f = vec![tx("["), t(K::For(P::N("x"), src, cond))];
    f.extend(body);
    if flag() { f.extend([t(K::Else), tx("empty"), ex("a")]) }
    f.extend([t(K::EndFor), tx("]")]);
    decide(&one(f), None, "", data, LOOP)
}
/// loops in loops, in macros and around includes
pub fn loops_nested() {
    // quick: either the inner loop's source or what happens in it varies
    let (all, left) = (bound(0, 1) == 1, flag());
    let (a, z) = (|n| if all || left { pick(n) } else { 0 }, |n| if all || !left { pick(n) } else { 0 });
    if all && left { return }
    let inner_src = match a(4) { 0 => v("ys"), 1 => E::Ra(b(E::I(0)), b(bi(E::Gr(b(zero("x"))), "+", E::I(1))), false), 2 => v("xs"), _ => E::Ar(vec![v("a"), zero("x")]) };
    let shadow = a(2) == 1;
    let y = if shadow { "x" } else { "y" };
    let cond = if a(2) == 1 { Some(bi(bi(v(y), "+", E::I(0)), ">", E::I(0))) } else { None };
    let els = if all || !left { pick(3) } else { 2 };
    let mut inner = vec![li("index"), tx("("), t(K::For(P::N(y), inner_src, cond)), ex("x"), ex(y), li("index"), t(K::If(E::Lp("last"))), tx("."), t(K::EndIf)];
    match z(4) { 0 => inner.extend([t(K::If(bi(bi(v(y), "+", E::I(0)), "==", E::I(1)))), t(K::Break), t(K::EndIf), tx("-")]), 1 => inner.extend([t(K::If(E::Lp("first"))), t(K::Continue), t(K::EndIf), tx("-")]), 2 => inner.push(t(K::Ex(E::Cy(b(E::Ar(vec![E::S("<"), v("s")])))))), _ => {} }
    if els > 0 { inner.extend([t(K::Else), tx("none"), ex("x"), li("first")]) }
    inner.extend([t(K::EndFor), tx(")"), li("index0"), ex("x")]);
    if els == 2 { inner.extend([t(K::If(bi(zero("x"), "==", E::I(2)))), t(K::Break), t(K::EndIf), tx("~")]) }
    let outer = |b: Vec<Tok>| [vec![t(K::For(P::N("x"), v("xs"), None))], b, vec![t(K::Else), tx("E"), t(K::EndFor)]].concat();
    let f = match pick(4) {
        0 => one(outer(inner)),
        1 => one([vec![t(K::Macro("m", vec!["x"])), t(K::For(P::N("y"), v("ys"), None)), li("index"), ex("x"), t(K::EndFor), t(K::EndMacro)], outer([inner, vec![t(K::Call(None, "m", vec![E::Lp("index")])), li("index")]].concat())].concat()),
        2 => many(vec![fl("t.html", outer([vec![t(K::Include("i.html"))], inner, vec![li("last")]].concat())), fl("i.html", vec![tx("I"), ex("x"), li("index"), t(K::For(P::N("x"), v("ys"), None)), li("index0"), t(K::EndFor), li("first")])]),
        _ => one(outer([vec![t(K::If(E::Lp("first")))], inner.clone(), vec![t(K::Else), li("index"), t(K::EndIf), t(K::Filter(vec![("mark", vec![])]))], inner.into_iter().filter(|t| !matches!(t.k, K::Break | K::Continue)).collect(), vec![t(K::EndFilter)]].concat())),
    };
    let w = || { let mut w = data(); w.fields.push(("s", st(">"))); w };
    decide(&f, None, "", w, LOOP)
}
/// patterns in loops
pub fn loops_targets() {
    let p = match pick(4) { 0 => P::Tu(vec![P::N("x"), P::N("y")]), 1 => P::Tu(vec![P::Any, P::N("y")]), 2 => P::Tu(vec![P::N("x"), P::Any]), _ => P::N("z") };
    let show = |p: &P| -> Vec<Tok> { match p { P::N(_) => vec![t(K::Ex(E::At(b(v("z")), "0"))), t(K::Ex(E::At(b(v("z")), "1")))], P::Tu(ps) => ps.iter().filter_map(|p| if let P::N(n) = p { Some(ex(n)) } else { None }).collect(), _ => vec![] } };
    let s = show(&p);
    let f = match pick(3) { 0 => [vec![t(K::For(p, v("ps"), None))], s, vec![li("last"), t(K::EndFor)]].concat(), 1 => [vec![t(K::Let(P::N("y"), Some(E::I(4)))), t(K::Let(P::N("x"), Some(E::I(5)))), t(K::For(p, v("ps"), None))], s, vec![ex("x"), ex("y"), t(K::EndFor), ex("x"), ex("y")]].concat(), _ => [vec![t(K::For(P::N("k"), v("xs"), None)), t(K::For(p, v("ps"), Some(v("p"))))], s, vec![ex("k"), li("index"), t(K::EndFor), li("index"), t(K::EndFor)]].concat() };
    decide(&one(f), None, "", data, LOOP)
}
