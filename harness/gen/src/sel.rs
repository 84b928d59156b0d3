//! P19: which branch is rendered
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
/// data out of a small range, left symbolic
pub fn small(n: u8) -> V { V::Int(range(0, n) as i64) }
pub fn boolean() -> V { V::Bool(sel(2) == 1) }
pub fn opt(n: u8) -> V { if flag() { some(small(n)) } else { none() } }
fn data() -> World { World::new(vec![("a", small(3)), ("b", small(3)), ("p", boolean()), ("q", boolean()), ("o", opt(2)), ("m", opt(2)), ("t", V::Tup(Rc::new(vec![small(2), small(2)]))), ("s", st("x<y"))]) }
/// the condition of a branch, and what its body can show
fn cond(k: usize) -> (K, E) {
    let some = |n| P::En("Some", vec![P::N(n)]);
    match k {
        0 => (K::If(v("p")), v("a")), 1 => (K::If(E::Un("!", b(v("q")))), v("b")), 2 => (K::If(bi(v("a"), "<", v("b"))), v("a")), 3 => (K::If(bi(bi(v("a"), "==", E::I(1)), "||", v("p"))), v("b")),
        4 => (K::If(bi(E::Un("!", b(v("p"))), "&&", E::Me(b(v("o")), "is_some", vec![]))), v("a")), 5 => (K::IfLet(some("k"), v("o")), v("k")), 6 => (K::IfLet(P::En("Some", vec![P::L(E::I(1))]), v("m")), v("a")), 7 => (K::IfLet(P::Tu(vec![P::L(E::I(0)), P::N("k")]), v("t")), v("k")),
        8 => (K::IfLet(P::En("None", vec![]), v("o")), v("a")), 9 => (K::If(E::Gr(b(bi(v("a"), ">=", E::I(2))))), v("a")),
        _ => (K::IfLet(P::Or(vec![P::L(E::I(0)), P::L(E::I(2))]), v("a")), v("b")),
    }
}
fn elif(k: K) -> K { match k { K::If(e) => K::Elif(e), K::IfLet(p, e) => K::ElifLet(p, e), k => k } }
pub fn chain(n: usize, els: bool, inner: Option<Vec<Tok>>, conds: usize) -> Vec<Tok> {
    let mut f = vec![tx("[")];
    let at = if inner.is_some() { pick(n + els as usize) } else { 9 };
    for i in 0..n {
        let (c, show) = cond(pick(conds));
        f.push(t(if i == 0 { c } else { elif(c) }));
        f.push(tx(["A", "B", "C"][i])); f.push(t(K::Ex(show)));
        if i == at { f.extend(inner.clone().unwrap()) }
    }
    if els { f.push(t(K::Else)); f.push(tx("E")); if at == n { f.extend(inner.clone().unwrap()) } }
    f.push(t(K::EndIf)); f.push(tx("]"));
    f
}
/// if chains of up to three conditions
pub fn if_chain() { let n = 1 + pick(bound(2, 3)); let els = flag(); decide(&one(chain(n, els, None, 11)), None, "", data, "exactly the first branch whose condition holds is rendered") }
fn arms(k: usize) -> (E, Vec<(P, Option<E>)>) {
    let en = |n, p| P::En(n, p);
    let i = |n| P::L(E::I(n));
    match k {
        0 => (v("a"), vec![(i(0), None), (i(2), None), (P::Or(vec![i(1), i(2)]), None), (P::N("k"), Some(v("k")))]),
        1 => (v("o"), vec![(en("Some", vec![i(1)]), None), (en("Some", vec![P::N("k")]), Some(v("k"))), (en("None", vec![]), None)]),
        2 => (E::Tu(vec![v("a"), v("b")]), vec![(P::Tu(vec![i(0), P::N("k")]), Some(v("k"))), (P::Tu(vec![P::N("k"), i(1)]), Some(v("k"))), (P::Tu(vec![P::Any, P::N("k")]), Some(v("k")))]),
        3 => (v("t"), vec![(P::Tu(vec![i(0), i(0)]), None), (P::Tu(vec![P::N("x"), P::N("y")]), Some(bi(v("x"), "-", v("y"))))]),
        4 => (v("p"), vec![(P::L(E::B(true)), None), (P::L(E::B(false)), None)]),
        5 => (bi(v("a"), "+", v("b")), vec![(i(3), None), (P::Or(vec![i(0), i(1), i(6)]), None), (P::Any, None)]),
        6 => (v("m"), vec![(P::Or(vec![en("Some", vec![i(0)]), en("None", vec![])]), None), (en("Some", vec![P::N("a")]), Some(v("a")))]),
        _ => (E::Tu(vec![v("o"), v("m")]), vec![(P::Tu(vec![en("Some", vec![P::N("x")]), en("Some", vec![P::N("y")])]), Some(bi(v("x"), "+", v("y")))), (P::Tu(vec![en("None", vec![]), P::Any]), None), (P::Any, None)]),
    }
}
pub fn matching(k: usize) -> Vec<Tok> {
    let (e, arms) = arms(k);
    let mut f = vec![tx("["), t(K::Match(e))];
    let last = arms.len() - 1;
    let irrefutable = !matches!(k, 1 | 4 | 6);
    // the last arm may be an else
    let els = irrefutable && flag();
    for (i, (p, show)) in arms.into_iter().enumerate() {
        if i == last && els { f.push(t(K::Else)); f.push(tx("E")); continue }
        f.push(t(K::When(p))); f.push(tx(["A", "B", "C", "D"][i]));
        if let Some(e) = show { f.push(t(K::Ex(e))) }
    }
    f.push(t(K::EndMatch)); f.push(tx("]"));
    f
}
pub const MATCHES: usize = 8;
pub fn match_arms() { let k = pick(MATCHES); decide(&one(matching(k)), None, "", data, "exactly the first matching arm is rendered with its bindings") }
/// choices inside of choices, loops, macros and blocks
pub fn select_nested() {
    let inner = match pick(4) { 0 => chain(1, true, None, 8), 1 => chain(2, false, None, 6), 2 => { let k = pick(4); matching(k) } _ => vec![t(K::For(P::N("a"), v("xs"), None)), t(K::If(bi(v("a"), "==", E::I(2)))), tx("T"), t(K::Else), ex("a"), t(K::EndIf), t(K::EndFor)] };
    let f = match pick(4) {
        0 => chain(2, true, Some(inner), 3),
        1 => { let (e, p) = (v("o"), P::En("Some", vec![P::N("a")])); let mut f = vec![t(K::Match(e)), t(K::When(p)), ex("a")]; f.extend(inner.clone()); f.push(t(K::Else)); f.push(tx("E")); f.extend(inner); f.push(t(K::EndMatch)); f.push(ex("a")); f }
        2 => { let mut f = vec![t(K::Macro("m", vec!["a", "p"]))]; f.extend(inner); f.extend([t(K::EndMacro), t(K::Call(None, "m", vec![v("b"), v("q")])), tx("|"), t(K::Call(None, "m", vec![E::I(1), E::B(true)]))]); f }
        _ => { let mut f = vec![t(K::Block("u"))]; f.extend(inner.clone()); f.push(t(K::EndBlock)); f.extend(inner); f }
    };
    let w = || { let mut w = data(); w.fields.push(("xs", list(vec![small(2), V::Int(2)]))); w };
    decide(&one(f), None, "", w, "nested choices render exactly the branches whose conditions hold")
}
