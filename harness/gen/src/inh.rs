//! P22: inheritance, P24: block fragments
use crate::*;
fn set(n: &'static str, e: E) -> Tok { t(K::Let(P::N(n), Some(e))) }
fn bl(n: &'static str, body: Vec<Tok>) -> Vec<Tok> { let mut f = vec![t(K::Block(n))]; f.extend(body); f.push(t(K::EndBlock)); f }
fn sup(k: usize, body: Vec<Tok>) -> Vec<Tok> {
    let s = || vec![t(K::Super)];
    match k { 0 => body, 1 => [s(), body].concat(), 2 => [body, s()].concat(), 3 => [body.clone(), s(), vec![tx("+")], s(), body].concat(), _ => vec![t(K::If(v("p")))].into_iter().chain(s()).chain([t(K::Else)]).chain(body).chain([t(K::EndIf)]).collect() }
}
fn data() -> World { World::new(vec![("a", V::Int(3)), ("b", V::Int(5)), ("s", st("x<y")), ("p", sel::boolean()), ("xs", list(vec![V::Int(1), V::Int(2)])), ("zs", list(vec![]))]) }
fn base() -> Vec<Tok> {
    [vec![tx("<")], bl("u", vec![tx("bu"), ex("s")]), vec![tx("|")], bl("w", [vec![tx("bw")], bl("z", vec![tx("bz"), ex("a")]), vec![tx("wb")]].concat()), vec![tx(">"), t(K::Macro("m", vec![])), tx("Mb"), t(K::EndMacro), t(K::Call(None, "m", vec![]))]].concat()
}
/// what a template in the middle or at the end of the chain overrides
fn level(f: &mut Vec<Tok>, parent: &'static str, mark: [&'static str; 3], parent_nests: bool) -> bool {
    f.push(t(K::Extends(parent)));
    f.push(tx("ignored"));
    match pick(bound(4, 6)) { 0 => {} k => f.extend(bl("u", sup(k - 1, vec![tx(mark[0]), ex("b")]))) }
    let mut nests = parent_nests;
    match pick(4) { 0 => {} 1 => { f.extend(bl("w", vec![tx(mark[1])])); nests = false } 2 => f.extend(bl("w", sup(2, vec![tx(mark[1])]))), _ => { f.extend(bl("w", [vec![tx(mark[1])], bl("z", vec![tx(mark[2])])].concat())); return true } }
    match pick(3) { 0 => {} k => if nests { f.extend(bl("z", sup(k - 1, vec![tx(mark[2]), t(K::Call(None, "m", vec![]))]))) } }
    nests
}
const LABEL: &str = "the root template is rendered with the most derived definition of each block";
/// chains of two and three templates
pub fn inherit_chain() {
    let mut files = vec![];
    let mut c = vec![];
    if flag() {
        let mut m = vec![];
        let nests = level(&mut m, "b.html", ["mu", "mw", "mz"], true);
        m.extend([t(K::Macro("m", vec![])), tx("Mm"), t(K::EndMacro)]);
        level(&mut c, "m.html", ["cu", "cw", "cz"], nests);
        files.push(fl("t.html", c)); files.push(fl("m.html", m));
    } else { level(&mut c, "b.html", ["cu", "cw", "cz"], true); files.push(fl("t.html", c)) }
    files.push(fl("b.html", base()));
    decide(&many(files), None, "", data, LABEL)
}
/// long chains: a block overridden at some of the levels, each showing the one below or not, and one that appears half-way
pub fn inherit_deep() {
    const F: [&str; 6] = ["t.html", "l1.html", "l2.html", "l3.html", "l4.html", "b.html"];
    const M: [&str; 6] = ["0", "1", "2", "3", "4", "b"];
    let n = 2 + pick(bound(3, 4));
    let half = pick(3);
    let mut files = vec![];
    for i in 0..n {
        let mut f = vec![t(K::Extends(if i + 1 == n { "b.html" } else { F[i + 1] })), tx("ignored")];
        let body = vec![tx(M[i]), ex("a"), t(K::Call(None, "m", vec![]))];
        match pick(5) { 0 => {} 1 => f.extend(bl("u", body)), 2 => f.extend(bl("u", sup(1, body))), 3 => f.extend(bl("u", sup(2, body))), _ => f.extend(bl("u", [vec![t(K::Super), set("a", E::I(70 + i as i64)), t(K::Super)], body].concat())) }
        // the macro the blocks of this level see
        f.extend([t(K::Macro("m", vec![])), tx(["A", "B", "C", "D", "E"][i]), t(K::EndMacro)]);
        // a block of the base, and one inside of it that the base does not have
        if half == 1 && i + 1 == n { f.extend(bl("w", [vec![tx("n")], bl("v", vec![tx("v"), ex("b")])].concat())) }
        if half > 0 && i == 0 { f.extend(bl("v", vec![tx("V")])) }
        files.push(fl(F[i], f));
    }
    files.push(fl("b.html", [vec![tx("<"), ex("a")], bl("u", vec![tx("bu"), ex("a")]), vec![tx("|"), ex("a")], bl("w", vec![tx("bw")]), vec![tx(">")]].concat()));
    let mut x = many(files);
    if flag() { x.fragment = Some("u"); decide(&x, None, ", block = \"u\"", data, LABEL) } else { decide(&x, None, "", data, LABEL) }
}
/// what stands in the blocks, and where they stand in the base
pub fn inherit_scopes() {
    let content = |k: usize, n: &'static str| -> Vec<Tok> {
        match k {
            0 => vec![tx(n), ex("a")],
            1 => vec![set("a", E::I(7)), ex("a"), tx(n), ex("b")],
            2 => vec![t(K::For(P::N("a"), v("xs"), None)), ex("a"), t(K::Ex(E::Lp("last"))), t(K::EndFor), tx(n)],
            3 => vec![t(K::Call(None, "m", vec![v("b")])), tx(n)],
            4 => vec![t(K::Include("i.html")), tx(n)],
            5 => vec![t(K::Filter(vec![("upper", vec![])])), tx(n), ex("a"), t(K::EndFilter)],
            6 => vec![t(K::If(v("p"))), set("b", v("a")), ex("b"), t(K::Else), ex("b"), t(K::EndIf), tx(n)],
            _ => vec![t(K::Call(Some("q"), "k", vec![v("a")])), tx(n)],
        }
    };
    let s = pick(5);
    let child = [vec![t(K::Extends("b.html")), t(K::Import("k.html", "q")), tx("\n"), t(K::Macro("m", vec!["x"])), tx("C"), ex("x"), t(K::EndMacro), tx("ignored")], bl("u", sup(s, content(pick(8), "cu")))].concat();
    let bu = bl("u", content(pick(7), "bu"));
    let place = |k: usize| match k {
        0 => [vec![tx("<"), set("a", E::I(50)), ex("a")], bu.clone(), vec![ex("a"), tx(">")]].concat(),
        1 => [vec![tx("<"), t(K::For(P::N("b"), v("xs"), None)), ex("b")], bu.clone(), vec![ex("b"), t(K::EndFor), tx(">"), ex("b")]].concat(),
        2 => [vec![tx("<"), t(K::If(v("p"))), tx("P")], bu.clone(), vec![t(K::Else), tx("no"), t(K::EndIf), tx(">")]].concat(),
        3 => [vec![tx("<"), t(K::Filter(vec![("mark", vec![])]))], bu.clone(), vec![tx("f"), t(K::EndFilter), tx(">")]].concat(),
        _ => [vec![tx("<"), set("b", E::I(60)), t(K::For(P::N("k"), v("zs"), None)), ex("k"), t(K::Else), ex("b")], bu.clone(), vec![ex("b"), t(K::EndFor), tx(">")]].concat(),
    };
    let b = [place(pick(5)), vec![t(K::Macro("m", vec!["x"])), tx("B"), ex("x"), t(K::EndMacro)]].concat();
    let files = vec![fl("t.html", child), fl("b.html", b), fl("i.html", vec![tx("I"), ex("a"), set("b", E::I(9)), ex("b")]), fl("k.html", vec![t(K::Macro("k", vec!["x"])), tx("K"), ex("x"), set("x", E::I(1)), ex("x"), t(K::EndMacro)])];
    decide(&many(files), None, "", data, LABEL)
}
/// fragments
pub fn fragments() {
    let some = |n| P::En("Some", vec![P::N(n)]);
    let inner = match pick(6) {
        0 => vec![ex("a")],
        1 => vec![t(K::If(v("p"))), tx("P"), t(K::Else), ex("b"), t(K::EndIf)],
        2 => [vec![tx("(")], bl("y", vec![tx("y"), ex("a")]), vec![tx(")")]].concat(),
        3 => vec![t(K::For(P::N("k"), v("xs"), None)), ex("k"), tx(","), t(K::EndFor)],
        4 => vec![set("a", v("b")), ex("a"), t(K::Call(None, "m", vec![v("a")])), t(K::Include("i.html"))],
        _ => vec![t(K::Filter(vec![("upper", vec![])])), tx("f"), ex("s"), t(K::EndFilter)],
    };
    let u = bl("u", [vec![tx("U")], inner, vec![tx("u")]].concat());
    let wrap = |k: usize, x: Vec<Tok>| -> Vec<Tok> {
        match k {
            0 => [vec![tx("no"), ex("s")], x, vec![ex("s"), tx("no")]].concat(),
            1 => [vec![t(K::If(v("p"))), tx("no")], x, vec![tx("no"), t(K::Else), tx("no"), ex("a"), t(K::EndIf)]].concat(),
            2 => [vec![t(K::For(P::N("k"), v("xs"), None)), ex("k")], x, vec![tx("no"), t(K::EndFor)]].concat(),
            3 => [vec![t(K::Match(v("o"))), t(K::When(some("k"))), ex("k")], x, vec![t(K::Else), tx("no"), t(K::EndMatch)]].concat(),
            4 => [bl("o1", vec![tx("no")]), vec![tx("no")], bl("o2", [vec![tx("no")], x, vec![ex("a")]].concat())].concat(),
            5 => [vec![t(K::Filter(vec![("mark", vec![])])), tx("no"), ex("a"), t(K::EndFilter)], x, vec![t(K::Filter(vec![("mark", vec![])])), tx("no"), t(K::EndFilter), ex("a")]].concat(),
            6 => [vec![t(K::IfLet(some("k"), v("o"))), ex("k"), t(K::Elif(v("p")))], x, vec![t(K::EndIf), t(K::Call(None, "m", vec![v("b")]))]].concat(),
            _ => [vec![t(K::Include("i.html")), t(K::Call(None, "m", vec![v("a")])), set("k", v("a")), t(K::If(v("p"))), tx("no"), t(K::Else), ex("k"), t(K::EndIf)], x, vec![t(K::Comment("no")), t(K::Raw), tx("no"), t(K::EndRaw)]].concat(),
        }
    };
    let k = pick(8);
    let mut f = wrap(k, u);
    // whether choices and loops in another block around the fragment count is not specified
    if flag() { let w = pick(8); if w == 4 && [1, 2, 3, 6].contains(&k) { return } f = wrap(w, f) }
    f.extend([t(K::Macro("m", vec!["x"])), tx("M"), ex("x"), t(K::EndMacro)]);
    let f = dedup(f);
    let mut files = vec![];
    match pick(3) {
        0 => files.push(fl("t.html", f)),
        // the block is inherited
        1 => { files.push(fl("t.html", vec![t(K::Extends("b.html")), tx("no")])); files.push(fl("b.html", f)) }
        _ => { files.push(fl("t.html", [vec![t(K::Extends("b.html")), tx("no"), t(K::Macro("m", vec!["x"])), tx("C"), ex("x"), t(K::EndMacro)], bl("u", vec![tx("C"), t(K::Super), ex("b"), t(K::Call(None, "m", vec![v("b")]))])].concat())); files.push(fl("b.html", f)) }
    }
    files.push(fl("i.html", vec![tx("I"), ex("a")]));
    let mut tpl = many(files);
    tpl.fragment = Some("u");
    let w = || { let mut w = data(); w.fields.push(("o", sel::opt(1))); w };
    decide(&tpl, None, ", block = \"u\"", w, "a block fragment renders what its block renders as part of the template, and nothing else")
}
/// block names must be unique
fn dedup(mut f: Vec<Tok>) -> Vec<Tok> {
    let mut n = 0;
    for x in &mut f { if let K::Block(b @ ("o1" | "o2")) = &mut x.k { *b = ["o1", "o2", "o3", "o4"][n]; n += 1 } }
    f
}
