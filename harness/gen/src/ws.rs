//! P18: whitespace control
use crate::*;
pub const SIGNS: &[u8] = b" -+~";
pub const WS: [(&str, Ws); 3] = [("preserve", Ws::Preserve), ("suppress", Ws::Suppress), ("minimize", Ws::Minimize)];
/// a text out of the characters which matter
pub fn text(max: usize) -> Vec<u8> { (0..pick(max + 1)).map(|i| one_of(if i == 0 { &b" \n\ra\t"[..] } else { b" \n\ra" })).collect() }
fn macro_m(body: &str) -> Vec<Tok> { vec![t(K::Macro("m", vec!["z"])), tx(body), ex("z"), tx(body), t(K::EndMacro)] }
/// templates with every kind of tag; the texts in them are the holes
pub fn skeleton(k: usize) -> Option<Tpl> {
    let w = || tx(" . ");
    let cond = || K::Bi_(v("a"), "<", v("b"));
    Some(match k {
        0 => one(vec![w(), ex("s"), w(), t(K::Comment("c")), w(), t(K::Let(P::N("l"), Some(v("s")))), w(), ex("l"), w()]),
        1 => one(vec![w(), t(K::If(v("p"))), w(), t(K::Else), w(), t(K::EndIf), w()]),
        2 => one(vec![w(), t(K::If(v("q"))), w(), t(K::Elif(cond())), w(), t(K::ElifLet(P::En("Some", vec![P::N("k")]), v("o"))), w(), t(K::Else), w(), t(K::EndIf), w()]),
        3 => one(vec![w(), t(K::If(v("q"))), w(), t(K::Else), w(), t(K::EndIf), w(), t(K::IfLet(P::En("Some", vec![P::N("k")]), v("o"))), w(), ex("k"), w(), t(K::EndIf), w()]),
        4 => one(vec![w(), t(K::For(P::N("x"), v("xs"), None)), w(), ex("x"), w(), t(K::EndFor), w()]),
        5 => one(vec![w(), t(K::For(P::N("x"), v("zs"), None)), w(), t(K::Else), w(), t(K::EndFor), w(), t(K::For(P::N("x"), v("xs"), Some(K::Bi_(v("x"), "==", E::I(2))))), w(), t(K::Else), w(), t(K::EndFor), w()]),
        6 => one(vec![w(), t(K::Match(v("o"))), t(K::When(P::En("Some", vec![P::N("k")]))), w(), ex("k"), w(), t(K::When(P::En("None", vec![]))), w(), t(K::EndMatch), w()]),
        7 => one(vec![w(), t(K::Match(v("a"))), t(K::When(P::L(E::I(4)))), w(), t(K::Else), w(), t(K::EndMatch), w()]),
        8 => one([macro_m(" . "), vec![w(), t(K::Call(None, "m", vec![v("t")])), w(), t(K::Call(None, "m", vec![v("a")])), w()]].concat()),
        9 => one(vec![w(), t(K::Block("u")), w(), ex("t"), w(), t(K::EndBlock), w()]),
        10 => many(vec![fl("t.html", vec![w(), t(K::Include("i.html")), w()]), fl("i.html", vec![w(), ex("t"), w()])]),
        11 => many(vec![fl("t.html", vec![w(), t(K::Import("i.html", "q")), w(), t(K::Call(Some("q"), "m", vec![v("t")])), w()]), fl("i.html", [vec![w()], macro_m(" . "), vec![w()]].concat())]),
        12 => one(vec![w(), t(K::Filter(vec![("upper", vec![])])), w(), ex("t"), w(), t(K::EndFilter), w()]),
        13 => one(vec![w(), t(K::Raw), w(), t(K::EndRaw), w()]),
        14 => one(vec![w(), t(K::For(P::N("x"), v("ys"), None)), w(), t(K::If(K::Bi_(v("x"), "==", E::I(8)))), w(), t(K::Continue), tx("no"), t(K::EndIf), w(), t(K::If(K::Bi_(v("x"), "==", E::I(9)))), w(), t(K::Break), t(K::EndIf), w(), t(K::EndFor), w()]),
        15 => many(vec![fl("t.html", vec![t(K::Extends("b.html")), tx("\n"), t(K::Block("u")), w(), t(K::Super), w(), t(K::EndBlock), tx("\n"), t(K::Block("w")), w(), t(K::EndBlock)]), fl("b.html", vec![w(), t(K::Block("u")), w(), ex("t"), w(), t(K::EndBlock), w(), t(K::Block("w")), tx("no"), t(K::EndBlock), w()])]),
        16 => { let mut x = one(vec![tx("no"), t(K::Block("u")), w(), ex("t"), w(), t(K::If(v("p"))), w(), t(K::EndIf), w(), t(K::EndBlock), tx("no")]); x.fragment = Some("u"); x }
        _ => return None,
    })
}
pub const SKELETONS: usize = 17;
/// the attributes or the configuration which select the default
pub fn defaults(k: usize, by_config: bool) -> (Option<String>, String) {
    if k == 0 { return (None, String::new()) }
    if by_config { (Some(["[general]\nwhitespace = \"", WS[k].0, "\"\n"].concat()), String::new()) } else { (None, [", whitespace = \"", WS[k].0, "\""].concat()) }
}
impl K { #[allow(non_snake_case)] pub fn Bi_(x: E, op: &'static str, y: E) -> E { E::Bi(op, b(x), b(y)) } }
fn go(mut tpl: Tpl, d: usize, by_config: bool, label: &str) {
    tpl.ws = WS[d].1;
    let (toml, mut attrs) = defaults(d, by_config);
    if tpl.fragment.is_some() { attrs.push_str(", block = \"u\"") }
    decide(&tpl, toml.as_deref(), &attrs, world, label)
}
fn mark(f: &mut [Tok], i: usize, two: bool, text: Vec<u8>) {
    f[i].k = K::Text(text);
    let sign = |t: &mut Tok, left: bool| if !matches!(t.k, K::Extends(_) | K::Text(_)) { let s = one_of(SIGNS); if left { t.l = s } else { t.r = s } };
    if i > 0 { sign(&mut f[i - 1], false) }
    if two { if let Some(t) = f.get_mut(i + 1) { sign(t, true) } }
}
/// one text with the signs next to it
pub fn ws_hole() {
    let mut tpl = skeleton(pick(SKELETONS)).unwrap();
    let holes: Vec<(usize, usize)> = tpl.files.iter().enumerate().flat_map(|(f, x)| x.t.iter().enumerate().filter(|(_, t)| matches!(&t.k, K::Text(x) if x == b" . ")).map(move |(i, _)| (f, i)).collect::<Vec<_>>()).collect();
    let (f, i) = holes[pick(holes.len())];
    let d = pick(3);
    mark(&mut tpl.files[f].t, i, true, text(bound(2, 4)));
    go(tpl, d, false, "white space around a tag is kept or removed as the signs next to it say");
}
/// texts on both sides of a tag or of two neighbouring tags
pub fn ws_pair() {
    let kinds: [fn() -> Vec<Tok>; 5] = [|| vec![ex("t")], || vec![t(K::Comment("c"))], || vec![t(K::If(v("p"))), t(K::EndIf)], || vec![t(K::Let(P::N("l"), Some(v("s"))))], || vec![t(K::Block("u")), t(K::EndBlock)]];
    let mut f = vec![tx("a"), tx(" ")];
    f.remove(0);
    let k = pick(kinds.len());
    f.extend(kinds[k]());
    f.push(tx(" "));
    let k = pick(kinds.len() - 1);
    f.extend(kinds[k]());
    f.push(tx("x"));
    let i = f.iter().rposition(|t| matches!(&t.k, K::Text(x) if x == b" ")).unwrap();
    let t1: Vec<u8> = (0..pick(3)).map(|_| one_of(b" \n")).collect();
    let t2: Vec<u8> = (0..pick(3)).map(|i| one_of(if i == 0 { &b" \n\r"[..] } else { b" \n" })).collect();
    mark(&mut f, 0, true, t1);
    mark(&mut f, i, true, t2);
    go(one(f), [0, 2][pick(2)], true, "white space around neighbouring tags is kept or removed as the signs next to it say");
}
