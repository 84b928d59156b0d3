//! P23: included and imported templates, P25: filter blocks
use crate::*;
fn bi(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) }
fn set(n: &'static str, e: E) -> Tok { t(K::Let(P::N(n), Some(e))) }
fn call(n: &'static str, a: Vec<E>) -> Tok { t(K::Call(None, n, a)) }
fn mac(n: &'static str, p: Vec<&'static str>, body: Vec<Tok>) -> Vec<Tok> { let mut f = vec![t(K::Macro(n, p))]; f.extend(body); f.push(t(K::EndMacro)); f }
fn data() -> World { World::new(vec![("a", V::Int(3)), ("b", V::Int(5)), ("s", st("x<y")), ("p", sel::boolean()), ("o", sel::opt(1)), ("xs", list(vec![V::Int(1), V::Int(2)]))]) }
/// what the included template contains
fn included(k: usize) -> Vec<File> {
    let i = "i.html";
    match k {
        0 => vec![fl(i, vec![tx("I"), ex("a"), ex("s"), tx("\n")])],
        1 => vec![fl(i, vec![set("a", E::I(70)), ex("a"), set("k", bi(v("b"), "+", E::I(1))), ex("k")])],
        2 => vec![fl(i, vec![tx("I"), t(K::Include("j.html")), ex("a")]), fl("j.html", vec![tx("J"), set("a", E::I(71)), ex("a")])],
        3 => vec![fl(i, vec![t(K::Extends("k.html")), tx("no"), t(K::Block("u")), tx("iu"), ex("b"), t(K::Super), t(K::EndBlock)]), fl("k.html", vec![tx("<"), t(K::Block("u")), tx("ku"), ex("b"), t(K::EndBlock), tx(">")])],
        4 => vec![fl(i, vec![call("m", vec![v("a")]), tx("I"), call("m", vec![E::I(4)])])],
        5 => vec![fl(i, [mac("m", vec!["x"], vec![tx("im"), ex("x"), set("a", E::I(1)), ex("a")]), vec![call("m", vec![v("b")]), call("m", vec![v("a")])]].concat())],
        6 => vec![fl(i, vec![t(K::Import("j.html", "q")), t(K::Call(Some("q"), "k", vec![v("a")]))]), fl("j.html", [mac("k", vec!["x"], vec![tx("K"), call("l", vec![v("x"), v("x")])]), mac("l", vec!["x", "y"], vec![ex("x"), tx("l"), ex("y")])].concat())],
        7 => vec![fl(i, vec![t(K::For(P::N("x"), v("xs"), None)), t(K::Include("j.html")), t(K::Ex(E::Lp("index"))), t(K::EndFor)]), fl("j.html", vec![t(K::If(bi(v("x"), "==", E::I(2)))), ex("x"), t(K::Else), tx("-"), t(K::EndIf)])],
        8 => vec![fl(i, vec![t(K::Block("u")), tx("iu"), ex("a"), t(K::EndBlock), t(K::Call(Some("r"), "k", vec![v("b")]))])],
        _ => vec![fl(i, vec![t(K::Filter(vec![("mark", vec![])])), t(K::Include("j.html")), t(K::EndFilter), t(K::Match(v("o"))), t(K::When(P::En("Some", vec![P::N("a")]))), t(K::Include("j.html")), t(K::Else), tx("N"), t(K::EndMatch)]), fl("j.html", vec![tx("J"), ex("a")])],
    }
}
const INC: &str = "an included template renders as if it stood in the place of the include";
fn place(k: usize, e: &'static str) -> Vec<Tok> {
    let i = t(K::Include("i.html"));
    match k {
        0 => vec![tx("["), i, tx("]"), ex("a"), ex("b")],
        1 => vec![t(K::For(P::N("a"), v("xs"), None)), i.clone(), tx(","), ex("a"), t(K::EndFor), ex("a"), i],
        2 => vec![set("a", E::I(40)), ex(e), i.clone(), ex("a"), set("b", E::I(41)), i, ex("b")],
        3 => vec![call("w", vec![v("b"), E::I(6)]), ex("a")],
        4 => vec![t(K::Filter(vec![("mark", vec![])])), tx("f"), i, tx("g"), ex("a"), t(K::EndFilter), ex("a")],
        5 => vec![t(K::If(v("p"))), set("b", v("a")), i.clone(), ex("b"), t(K::Else), i, tx("E"), t(K::EndIf), ex("b")],
        6 => vec![t(K::IfLet(P::En("Some", vec![P::N("b")]), v("o"))), i.clone(), ex("b"), t(K::EndIf), i, ex("b")],
        _ => vec![t(K::Block("u")), tx("tu"), set("a", E::I(42)), i, ex("a"), t(K::EndBlock), ex("a")],
    }
}
pub fn include_places() {
    let mut files = included(pick(10));
    let mut f = vec![t(K::Import("r.html", "r"))];
    f.extend(place(pick(8), "s"));
    f.extend(mac("w", vec!["a", "b"], vec![tx("("), t(K::Include("i.html")), ex("a"), ex("b"), tx(")")]));
    f.extend(mac("m", vec!["x"], vec![tx("tm"), ex("x"), set("x", E::I(2)), ex("x")]));
    files.insert(0, fl("t.html", f));
    files.push(fl("r.html", mac("k", vec!["x"], vec![tx("R"), ex("x")])));
    decide(&many(files), None, "", data, INC)
}
/// which file a path names
pub fn include_paths() {
    const D: [[&str; 4]; 4] = [["", "", "", ""], ["d/", "d/", "", ""], ["d/", "d/e/", "d/", "e/"], ["d/", "e/", "d/", "../e/"]];
    let d = D[pick(4)];
    let leak = |x: String| -> &'static str { Box::leak(x.into_boxed_str()) };
    let (dir, other) = (d[0], d[1]);
    let abs = flag();
    // relative to the file the tag stands in, or to the directory of the templates
    let rel = |name: &str| leak(if abs { [other, name].concat() } else { [d[3], name].concat() });
    let j = rel("j.html");
    let start = |name: &str| leak([dir, name].concat());
    let kind = pick(5);
    // a file of the same name elsewhere, which must not be used
    let decoy = flag();
    let body = match kind {
        0 => vec![tx("I"), t(K::Include(j)), tx("i")],
        1 => vec![t(K::Import(j, "q")), tx("I"), t(K::Call(Some("q"), "k", vec![v("a")]))],
        2 => vec![t(K::Extends(j)), t(K::Block("u")), tx("iu"), t(K::Super), t(K::EndBlock)],
        3 => vec![t(K::For(P::N("a"), v("xs"), None)), t(K::Include(j)), t(K::EndFor)],
        _ => vec![t(K::Block("u")), tx("I"), t(K::Include(j)), t(K::EndBlock)],
    };
    let i = start("i.html");
    let t1 = match (kind, flag()) { (1, true) => vec![tx("<"), t(K::Include(i)), tx(">")], (_, true) if kind != 2 => vec![t(K::Extends(i)), t(K::Block("v")), t(K::EndBlock)], _ => vec![tx("<"), t(K::Include(i)), tx(">")] };
    let jp = leak([other, "j.html"].concat());
    let content = match kind { 1 => mac("k", vec!["x"], vec![tx("K"), ex("x")]), 2 => vec![tx("J"), t(K::Block("u")), tx("ju"), ex("a"), t(K::EndBlock)], _ => vec![tx("J"), ex("a")] };
    let mut files = vec![fl("t.html", t1), fl(i, body), fl(jp, content)];
    let elsewhere = if other.is_empty() { "e/j.html" } else { "j.html" };
    if decoy && !(abs && other == "") && elsewhere != jp && (!abs || other != "") { files.push(fl(elsewhere, vec![tx("DECOY")])) }
    RENAME.with(|r| *r.borrow_mut() = Some((j, jp)));
    decide(&many(files), None, "", data, "an include, import or extends names a file relative to the one it stands in, or to the template directory");
    RENAME.with(|r| *r.borrow_mut() = None);
}
thread_local! { pub static RENAME: std::cell::RefCell<Option<(&'static str, &'static str)>> = const { std::cell::RefCell::new(None) }; }
/// imported macros
pub fn imports() {
    let kinds: [fn() -> Vec<Tok>; 6] = [
        || vec![tx("K"), ex("x"), ex("a")], || vec![call("l", vec![v("x")]), ex("x")], || vec![set("a", bi(v("x"), "+", E::I(60))), ex("a")], || vec![t(K::Include("j.html")), ex("x")],
        || vec![t(K::For(P::N("y"), v("xs"), None)), call("l", vec![bi(v("y"), "+", v("x"))]), t(K::EndFor)], || vec![t(K::Call(Some("z"), "k", vec![v("x")])), ex("x")],
    ];
    let i = [vec![t(K::Import("z.html", "z")), tx("ignored")], mac("k", vec!["x"], kinds[pick(6)]()), mac("l", vec!["y"], vec![tx("il"), ex("y")])].concat();
    let k = t(K::Call(Some("q"), "k", vec![v("b")]));
    let own = mac("l", vec!["y"], vec![tx("no"), ex("y")]);
    let f = match pick(5) {
        0 => [own, vec![t(K::Import("i.html", "q")), k.clone(), tx(";"), ex("a")]].concat(),
        1 => [vec![t(K::For(P::N("b"), v("xs"), None)), k.clone(), t(K::EndFor), t(K::Import("i.html", "q"))], own].concat(),
        2 => [vec![t(K::Import("i.html", "q"))], mac("k", vec!["x"], vec![tx("tk"), k.clone(), ex("x")]), vec![call("k", vec![v("a")])], own].concat(),
        3 => [vec![t(K::Import("i.html", "q")), t(K::Import("z.html", "z")), k.clone(), t(K::Call(Some("z"), "k", vec![E::I(9)]))], own].concat(),
        _ => [vec![t(K::Extends("b.html")), t(K::Import("i.html", "q")), t(K::Block("u")), k.clone(), t(K::EndBlock)], own].concat(),
    };
    let files = vec![fl("t.html", f), fl("i.html", i), fl("j.html", vec![tx("J"), ex("x")]), fl("z.html", [mac("k", vec!["w"], vec![tx("Z"), ex("w"), call("l", vec![v("w")])]), mac("l", vec!["y"], vec![tx("zl"), ex("y")])].concat()), fl("b.html", [vec![tx("<"), t(K::Block("u")), t(K::EndBlock), tx(">")], mac("l", vec!["y"], vec![tx("no")])].concat())];
    decide(&many(files), None, "", data, "an imported macro renders as in the template it comes from")
}
const FILTERS: usize = 10;
fn filters(k: usize) -> Vec<(&'static str, Vec<E>)> {
    match k {
        0 => vec![("upper", vec![])], 1 => vec![("mark", vec![])], 2 => vec![("trim", vec![]), ("mark", vec![])], 3 => vec![("wrap", vec![E::S("<>")])], 4 => vec![("wrap", vec![v("a")]), ("upper", vec![]), ("mark", vec![])],
        5 => vec![("mark", vec![]), ("safe", vec![])], 6..9 => (["()", "12", "34", "56", "78"][..k - 3]).iter().map(|s| ("wrap", vec![E::S(s)])).collect::<Vec<_>>(), _ => vec![("wrap", vec![E::Fi("upper", vec![v("t")])]), ("lower", vec![]), ("wrap", vec![bi(v("a"), "+", v("b"))])],
    }
}
const CONTENTS: usize = 11;
fn content(k: usize) -> Vec<Tok> {
    match k {
        0 => vec![tx(" Ab ")], 1 => vec![tx("x"), ex("s"), tx("Y ")], 2 => vec![t(K::If(v("p"))), tx("Pp"), ex("a"), t(K::Else), tx("Ee"), t(K::EndIf), tx(" ")],
        3 => vec![tx(" "), t(K::For(P::N("x"), v("xs"), None)), tx("Ll"), ex("x"), t(K::EndFor)], 4 => vec![t(K::Match(v("o"))), t(K::When(P::En("Some", vec![P::N("k")]))), tx("Kk"), ex("k"), t(K::Else), tx("Nn"), t(K::EndMatch)],
        5 => vec![set("a", E::I(33)), ex("a"), tx("Qq")], 6 => vec![call("m", vec![v("t")]), tx("zZ")], 7 => vec![t(K::Include("i.html")), tx("wW")],
        8 => vec![tx("Oo"), t(K::Filter(vec![("mark", vec![])])), tx("iI"), ex("t"), t(K::EndFilter), tx("Cc")], 9 => vec![], _ => vec![t(K::Raw), tx("{{ rR }}"), t(K::EndRaw), t(K::Ex(E::Fi("safe", vec![E::Fi("upper", vec![v("s")])])))],
    }
}
const FB: &str = "a filter block shows what its filters make of the whole rendered content";
fn fdata() -> World { let mut w = data(); w.fields.push(("t", st("Tt"))); w }
fn helpers(mut f: Vec<Tok>) -> Tpl { f.extend(mac("m", vec!["x"], vec![tx("Mm"), ex("x")])); many(vec![fl("t.html", f), fl("i.html", vec![tx("iNc"), ex("a")])]) }
fn fb(k: usize, c: Vec<Tok>) -> Vec<Tok> { let mut f = vec![t(K::Filter(filters(k)))]; f.extend(c); f.push(t(K::EndFilter)); f }
/// one filter block, in any place
pub fn filter_block() {
    let x = fb(pick(FILTERS), content(pick(CONTENTS)));
    let f = match pick(7) {
        0 => [vec![tx("<i>"), ex("a")], x, vec![ex("a"), tx("</i>")]].concat(),
        1 => [vec![t(K::For(P::N("y"), v("xs"), None)), ex("y")], x, vec![ex("y"), t(K::EndFor), ex("a")]].concat(),
        2 => [vec![t(K::If(v("p"))), tx("P")], x.clone(), vec![t(K::Else)], x, vec![tx("E"), t(K::EndIf)]].concat(),
        3 => [vec![t(K::Block("u")), ex("a")], x, vec![tx("u"), t(K::EndBlock)]].concat(),
        4 => [vec![t(K::Macro("w", vec!["a"])), ex("a")], x, vec![ex("a"), t(K::EndMacro), call("w", vec![E::I(8)]), call("w", vec![v("b")])]].concat(),
        5 => [x.clone(), x.clone(), vec![ex("s")], x].concat(),
        _ => [vec![set("b", v("a")), set("a", E::I(21)), ex("a")], x, vec![ex("a"), ex("b")]].concat(),
    };
    decide(&helpers(f), None, "", fdata, FB)
}
/// filter blocks in filter blocks
pub fn filter_nested() {
    let (k, l) = (pick(FILTERS), pick(FILTERS));
    let inner = fb(l, content(pick(8)));
    let c = match pick(6) { 0 => inner, 1 => [vec![tx("Aa"), ex("a")], inner, vec![tx("Bb"), ex("t")]].concat(), 2 => [vec![t(K::For(P::N("y"), v("xs"), None)), ex("y")], inner, vec![t(K::EndFor)]].concat(), 3 => [inner.clone(), inner].concat(), 4 => fb(0, inner), _ => [vec![t(K::If(v("p"))), set("t", E::S("sS")), ex("t")], inner, vec![t(K::EndIf), ex("t")]].concat() };
    decide(&helpers([vec![ex("t")], fb(k, c), vec![tx("."), ex("t")]].concat()), None, "", fdata, FB)
}
