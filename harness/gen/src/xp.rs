//! P31: expressions mean what they mean in Rust; P28: how often and in which order they are evaluated
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
fn set(n: &'static str, e: E) -> Tok { t(K::Let(P::N(n), Some(e))) }
fn me(x: E, n: &'static str, a: Vec<E>) -> E { E::Me(b(x), n, a) }
fn next() -> E { me(v("self"), "next", vec![]) }
fn nested() -> V { obj(vec![("x", V::Int(11)), ("y", st("in")), ("z", some(V::Int(4))), ("w", V::Tup(Rc::new(vec![V::Int(6), st("w<")]))), ("v", list(vec![V::Int(2), V::Int(9)]))]) }
fn data() -> World { World::new(vec![("a", V::Int(3)), ("b", V::Int(5)), ("c", V::Int(7)), ("s", st("x<y")), ("p", sel::boolean()), ("q", sel::boolean()), ("r", sel::boolean()), ("o", sel::opt(1)), ("xs", list(vec![V::Int(1), V::Int(2)])), ("t", V::Tup(Rc::new(vec![V::Int(7), V::Int(8)]))), ("n", nested())]) }
fn level(op: &str) -> u8 { match op { "*" | "/" | "%" => 11, "+" | "-" => 10, "<<" | ">>" => 9, "&" => 8, "^" => 7, "|" => 6, "&&" => 4, "||" => 3, _ => 5 } }
/// groups a sequence of operands and operators like Rust does
fn climb(x: &mut Vec<E>, o: &mut Vec<&'static str>, min: u8) -> E {
    let mut l = x.pop().unwrap();
    while let Some(&op) = o.last() { let p = level(op); if p < min { break } o.pop(); let r = climb(x, o, p + 1); l = bi(l, op, r) }
    l
}
fn rust(mut x: Vec<E>, mut o: Vec<&'static str>) -> E { x.reverse(); o.reverse(); climb(&mut x, &mut o, 0) }
const INTOPS: [&str; 10] = ["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"];
const CMP: [&str; 6] = ["==", "!=", "<", ">", "<=", ">="];
const OPERANDS: usize = 10;
fn operand(k: usize) -> E {
    match k {
        0 => v("a"), 1 => v("b"), 2 => E::I(2), 3 => E::Un("-", b(v("a"))), 4 => E::Gr(b(bi(v("c"), "-", v("a")))), 5 => E::At(b(v("n")), "x"), 6 => E::Ix(b(v("xs")), b(E::I(1))), 7 => me(v("self"), "sub", vec![v("b"), bi(v("a"), "*", E::I(2))]),
        8 => E::At(b(E::At(b(v("n")), "w")), "0"), _ => E::Un("!", b(v("c"))),
    }
}
const MEANS: &str = "an expression has the value it has in Rust";
const PLACES: usize = 16;
/// shows the value of a number, passed through one of the places an expression can stand in
fn shown(e: E, k: usize) -> Vec<Tok> {
    let yes = |c: K| vec![t(c), tx("Y"), t(K::Else), tx("N"), t(K::EndIf)];
    let eight = || P::L(E::I(8));
    match k {
        0 => vec![t(K::Ex(e))],
        1 => vec![set("v", e), ex("v")],
        2 => [yes(K::If(bi(if level_of(&e) > 5 { e.clone() } else { E::Gr(b(e.clone())) }, ">", E::I(6)))), vec![t(K::If(v("p"))), t(K::Elif(bi(e, "<", E::I(9)))), tx("L"), t(K::EndIf)]].concat(),
        3 => vec![t(K::Macro("m", vec!["z"])), ex("z"), tx(","), t(K::Ex(bi(v("z"), "*", E::I(2)))), t(K::EndMacro), t(K::Call(None, "m", vec![e]))],
        4 => vec![t(K::Match(e)), t(K::When(eight())), tx("8"), t(K::When(P::N("k"))), ex("k"), t(K::EndMatch)],
        5 => vec![t(K::For(P::N("k"), E::Ra(b(e.clone()), b(E::Gr(b(bi(E::Gr(b(e)), "+", E::I(2))))), false), None)), ex("k"), tx(","), t(K::EndFor)],
        6 => vec![t(K::Ex(E::Fi("wrap", vec![v("s"), e])))],
        7 => vec![t(K::Ex(me(v("self"), "twice", vec![e])))],
        8 => vec![t(K::For(P::N("k"), E::Ar(vec![e, v("a")]), None)), ex("k"), tx(","), t(K::EndFor)],
        9 => vec![t(K::Let(P::Tu(vec![P::N("u"), P::N("k")]), Some(E::Tu(vec![v("b"), e])))), ex("k"), ex("u")],
        10 => vec![t(K::Ex(E::Fi("mark", vec![E::Gr(b(e))])))],
        11 => vec![t(K::For(P::N("k"), v("xs"), None)), t(K::Ex(E::Cy(b(E::Ar(vec![e, E::I(0)]))))), tx(","), t(K::EndFor)],
        12 => yes(K::IfLet(eight(), e)),
        13 => vec![t(K::Filter(vec![("wrap", vec![e])])), tx("f"), t(K::EndFilter)],
        14 => vec![t(K::Let(P::N("v"), None)), t(K::If(v("p"))), set("v", e.clone()), t(K::Else), set("v", E::Gr(b(e))), t(K::EndIf), ex("v")],
        _ => vec![t(K::Ex(bi(E::Gr(b(e.clone())), "-", E::Gr(b(bi(v("b"), "-", E::Gr(b(e)))))))),],
    }
}
fn level_of(e: &E) -> u8 { if let E::Bi(op, ..) = e { level(op) } else { 20 } }
/// chains of integer operators
pub fn int_chains() {
    let n = bound(3, 4);
    let x = [v("a"), v("b"), E::I(2), v("c"), E::I(1)][..n + 1].to_vec();
    let o = (0..n).map(|_| INTOPS[pick(INTOPS.len())]).collect();
    let e = rust(x, o);
    decide(&one(vec![t(K::Ex(e))]), None, "", data, MEANS)
}
/// operands of every kind in every place
pub fn int_places() {
    let (x, y) = (operand(pick(OPERANDS)), operand(pick(OPERANDS)));
    let op = ["+", "*", "<<", "|"][pick(bound(2, 4))];
    let e = if tier() == 0 || flag() { rust(vec![E::I(1), x, y], vec!["-", op]) } else { rust(vec![x, y], vec![op]) };
    decide(&one(shown(e, pick(PLACES))), None, "", data, MEANS)
}
fn atom(k: usize) -> E {
    match k { 0 => v("p"), 1 => v("q"), 2 => E::Un("!", b(v("r"))), 3 => bi(v("a"), "<", v("b")), 4 => bi(bi(v("a"), "+", E::I(2)), "==", v("b")), 5 => me(v("o"), "is_some", vec![]), 6 => E::Gr(b(bi(v("q"), "||", v("r")))), _ => E::Un("!", b(E::Gr(b(bi(v("p"), "&&", v("q")))))) }
}
/// boolean chains in every place of a condition
pub fn bool_chains() {
    let n = bound(2, 3);
    let x = (0..n + 1).map(|i| atom(if i < 2 && tier() > 0 { pick(8) } else if i < 2 { [0, 2, 3, 4, 5, 6][pick(6)] } else { [1, 7, 5, 6][pick(4)] })).collect();
    let o = (0..n).map(|_| ["&&", "||"][pick(2)]).collect();
    let e = rust(x, o);
    let yn = |c: K| vec![t(c), tx("Y"), t(K::Else), tx("N"), t(K::EndIf)];
    let f = match pick(if n == 3 { 3 } else { 8 }) {
        0 => yn(K::If(e)),
        1 => vec![t(K::Ex(e))],
        2 => [vec![t(K::If(v("r"))), tx("r"), t(K::Elif(e)), tx("Y"), t(K::Else), tx("N"), t(K::EndIf)]].concat(),
        3 => [vec![set("v", e)], yn(K::If(v("v")))].concat(),
        4 => vec![t(K::For(P::N("k"), v("xs"), Some(e))), ex("k"), t(K::Else), tx("none"), t(K::EndFor)],
        5 => [vec![t(K::Macro("m", vec!["z"]))], yn(K::If(v("z"))), vec![ex("z"), t(K::EndMacro), t(K::Call(None, "m", vec![e]))]].concat(),
        6 => vec![t(K::Match(e)), t(K::When(P::L(E::B(true)))), tx("Y"), t(K::Else), tx("N"), t(K::EndMatch)],
        _ => yn(K::If(E::Un("!", b(E::Gr(b(e)))))),
    };
    decide(&one(f), None, "", data, MEANS)
}
/// comparisons of operator chains
pub fn comparisons() {
    let l = ["+", "<<", "&", "|", "%"]; 
    let (o1, c, o2) = (l[pick(5)], CMP[pick(6)], l[pick(5)]);
    let e = rust(vec![v("a"), v("b"), v("c"), E::I(2)], vec![o1, c, o2]);
    let f = match pick(4) { 0 => vec![t(K::Ex(e))], 1 => vec![t(K::If(e)), tx("Y"), t(K::Else), tx("N"), t(K::EndIf)], 2 => vec![t(K::If(rust(vec![v("p"), v("a"), v("b"), v("c"), E::I(2)], vec!["&&", o1, c, o2]))), tx("Y"), t(K::Else), tx("N"), t(K::EndIf)], _ => vec![t(K::Ex(E::Un("!", b(E::Gr(b(e))))))] };
    decide(&one(f), None, "", data, MEANS)
}
/// values of other types: access, indexing, patterns, text and lists
pub fn values() {
    let n = || b(v("n"));
    let kind = pick(30);
    let e = match kind {
        0 => E::At(n(), "y"), 1 => E::At(b(E::At(n(), "w")), "1"), 2 => E::Ix(b(E::At(n(), "v")), b(E::I(1))), 3 => me(E::At(n(), "z"), "is_some", vec![]), 4 => me(E::At(n(), "v"), "len", vec![]), 5 => me(v("s"), "len", vec![]),
        6 => E::Fi("upper", vec![E::Fi("mark", vec![E::At(n(), "y")])]), 7 => E::S("a\\\"<b\\\\c"), 8 => E::C('x'), 9 => E::B(true), 10 => E::I(-12), 11 => E::At(b(E::Tu(vec![v("a"), v("s")])), "1"), 12 => E::Ix(b(E::Ar(vec![v("c"), v("b")])), b(E::I(1))), 
        13 => me(v("self"), "twice", vec![me(v("self"), "sub", vec![v("c"), E::At(n(), "x")])]), 14 => E::At(b(E::Gr(n())), "x"), 15 => E::Fi("join", vec![v("xs"), E::S("-")]), 16 => E::Fi("safe", vec![v("s")]), 17 => E::Fi("escape", vec![v("s")]), 18 => E::At(b(v("self")), "s"), 19 => E::Fi("wrap", vec![E::Fi("lower", vec![v("s")]), E::Fi("upper", vec![E::S("q")])]), 
        20 => E::At(b(E::At(b(v("self")), "n")), "y"), 21 => E::Fi("e", vec![v("s"), E::S("txt")]),
        22 => me(E::Gr(b(E::Un("-", b(v("a"))))), "pow", vec![E::I(2)]), 23 => me(E::Gr(b(bi(v("a"), "-", v("c")))), "pow", vec![E::I(2)]), 24 => E::Un("-", b(me(v("a"), "pow", vec![E::I(2)]))), 25 => me(E::Gr(b(E::Un("!", b(v("p"))))), "clone", vec![]),
        26 => me(E::Gr(b(E::Gr(b(E::Un("-", b(v("c"))))))), "abs", vec![]), 27 => me(E::Gr(b(bi(E::Un("-", b(v("c"))), "*", v("a")))), "abs", vec![]), 28 => E::Ix(b(E::Gr(b(E::Ar(vec![v("c"), E::Un("-", b(v("b")))])))), b(E::Gr(b(E::I(1))))), _ => E::At(b(E::Gr(b(E::Tu(vec![E::Un("-", b(v("a"))), v("s")])))), "0"),
    };
    let place = pick(6);
    // a variable does not keep the temporary values its expression borrows from, as in Rust
    if kind == 6 && matches!(place, 1 | 2) { return }
    // join prints its text once, as it documents: it uses up the iterator
    if kind == 15 && matches!(place, 1 | 4) { return }
    let f = match place {
        0 => vec![t(K::Ex(e))],
        1 => vec![set("v", e), ex("v"), ex("v")],
        2 => vec![t(K::Macro("m", vec!["z"])), ex("z"), t(K::EndMacro), t(K::Call(None, "m", vec![e]))],
        3 => vec![t(K::For(P::N("k"), v("xs"), None)), ex("k"), t(K::Ex(e)), t(K::EndFor)],
        4 => vec![t(K::Ex(E::Fi("wrap", vec![v("a"), E::Gr(b(e))])))],
        _ => vec![t(K::If(v("p"))), t(K::Ex(e.clone())), t(K::Else), t(K::Ex(E::Gr(b(e)))), t(K::EndIf)],
    };
    decide(&one(f), None, "", data, MEANS)
}
const ONCE: &str = "expressions are evaluated in the order they are written in, those with effects once each";
fn effect(k: usize) -> E {
    match k {
        0 => next(), 1 => v("a"), 2 => me(v("self"), "twice", vec![next()]), 3 => E::Gr(b(next())), 4 => bi(next(), "+", v("a")), 5 => bi(v("a"), "-", next()), 6 => E::Fi("upper", vec![next()]), 7 => E::Fi("wrap", vec![next(), next()]), 8 => E::Fi("wrap", vec![v("s"), next()]),
        9 => me(v("self"), "sub", vec![next(), next()]), 10 => E::Un("-", b(next())), 11 => E::Ix(b(E::Ar(vec![next(), next()])), b(E::I(0))), 12 => E::At(b(E::Tu(vec![next(), next()])), "1"), 13 => E::Try(b(me(v("self"), "okay", vec![next()]))), 14 => bi(v("p"), "||", bi(next(), ">", E::I(0))), _ => bi(next(), "==", next()),
    }
}
const EFFECTS: usize = 16;
/// the same or different expressions in one run of output, with text or tags between
pub fn eval_output() {
    let kind = pick(EFFECTS);
    let (x, y) = (effect(kind), effect(pick(EFFECTS)));
    let place = pick(7);
    // a variable does not keep the temporary values its expression borrows from, as in Rust
    if kind == 6 && place == 4 { return }
    let f = match place {
        0 => vec![t(K::Ex(x.clone())), tx(" "), t(K::Ex(y)), tx(" "), t(K::Ex(x))],
        1 => vec![t(K::Ex(x.clone())), tx(" "), t(K::Comment("c")), t(K::Ex(x)), tx(" "), t(K::Ex(y)), tx("{ }")],
        2 => vec![t(K::Ex(x)), t(K::If(v("p"))), t(K::Ex(y.clone())), t(K::EndIf), t(K::Ex(y))],
        3 => vec![t(K::For(P::N("k"), v("xs"), None)), t(K::Ex(x)), tx(","), ex("k"), t(K::Ex(y)), t(K::EndFor)],
        4 => vec![set("u", x), t(K::Ex(y.clone())), ex("u"), t(K::Ex(y)), ex("u")],
        5 => vec![t(K::Filter(vec![("mark", vec![])])), t(K::Ex(x.clone())), t(K::EndFilter), t(K::Ex(y)), t(K::Ex(x))],
        _ => vec![t(K::Block("u")), t(K::Ex(x.clone())), t(K::EndBlock), t(K::Ex(y)), t(K::Ex(x))],
    };
    decide(&one(f), None, "", data, ONCE)
}
/// effects in conditions, sources of loops, matches, arguments of filter blocks and what comes before and after
pub fn eval_tags() {
    let x = effect([0, 2, 3, 4, 5, 9, 13, 10][pick(8)]);
    let n = t(K::Ex(next()));
    let gt = |e: E, i| bi(E::Gr(b(e)), ">", E::I(i));
    let f = match pick(14) {
        0 => vec![n.clone(), t(K::If(gt(x.clone(), 3))), n.clone(), t(K::Elif(gt(x.clone(), 2))), tx("b"), n.clone(), t(K::Else), n.clone(), t(K::EndIf), n],
        1 => vec![n.clone(), t(K::Match(x)), t(K::When(P::L(E::I(2)))), tx("two"), n.clone(), t(K::When(P::N("k"))), ex("k"), n.clone(), t(K::EndMatch), n],
        2 => vec![n.clone(), t(K::IfLet(P::L(E::I(2)), x.clone())), tx("two"), n.clone(), t(K::ElifLet(P::N("k"), x)), ex("k"), n.clone(), t(K::EndIf), n],
        3 => vec![n.clone(), t(K::For(P::N("k"), E::Ar(vec![x.clone(), x]), None)), ex("k"), n.clone(), t(K::EndFor), n],
        4 => vec![n.clone(), t(K::For(P::N("k"), v("xs"), Some(gt(x, 3)))), ex("k"), n.clone(), t(K::EndFor)],
        5 => vec![t(K::For(P::N("k"), E::Ra(b(E::I(0)), b(next()), true), None)), ex("k"), t(K::Ex(x)), t(K::EndFor)],
        6 => vec![n.clone(), t(K::Filter(vec![("wrap", vec![x])])), n.clone(), t(K::EndFilter), n],
        7 => vec![n.clone(), t(K::Let(P::N("u"), None)), n.clone(), t(K::If(v("p"))), set("u", x.clone()), t(K::Else), set("u", E::Gr(b(x))), t(K::EndIf), n, ex("u")],
        8 => vec![n.clone(), set("u", x.clone()), n.clone(), set("u", x), n, ex("u")],
        9 => vec![n.clone(), t(K::Macro("m", vec!["z", "y"])), n.clone(), ex("y"), ex("z"), ex("y"), t(K::EndMacro), n.clone(), t(K::Call(None, "m", vec![x.clone(), next()])), n.clone(), t(K::Call(None, "m", vec![next(), x])), n],
        10 => vec![n.clone(), t(K::For(P::N("k"), v("xs"), None)), n.clone(), t(K::If(bi(E::Gr(b(bi(v("k"), "+", E::I(0)))), "==", E::I(2)))), n.clone(), t(K::Break), t(K::EndIf), t(K::Ex(x)), t(K::EndFor), n],
        11 => vec![n.clone(), t(K::If(bi(v("p"), "&&", gt(x.clone(), 0)))), tx("T"), t(K::EndIf), n.clone(), t(K::If(bi(v("q"), "||", gt(x, 0)))), tx("T"), t(K::EndIf), n],
        12 => vec![n.clone(), t(K::For(P::N("k"), v("xs"), None)), t(K::Ex(E::Cy(b(E::Ar(vec![x.clone(), E::I(0)]))))), t(K::EndFor), n],
        _ => vec![n.clone(), t(K::Let(P::Tu(vec![P::N("u"), P::N("w")]), Some(E::Tu(vec![x.clone(), next()])))), n.clone(), ex("w"), ex("u"), n],
    };
    decide(&one(f), None, "", data, ONCE)
}
