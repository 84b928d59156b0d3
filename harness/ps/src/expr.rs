use vf::*;
use crate::ast::*;
fn judge(src: Vec<u8>, what: &str) {
    let full = [b"{{ ", &src[..], b" }}"].concat();
    let full = unsafe { String::from_utf8_unchecked(full) };
    let want = R::all(&src);
    let got = only_expr(&full);
    if let Some(g) = &got { emit(g) }
    match (want, got) {
        (Some(w), Some(g)) => { reach("well-formed"); check(eq(&g, &w), what) }
        (Some(_), None) => fail("a well-formed expression is rejected"),
        (None, Some(_)) => reach("accepted, outside of the subset"),
        (None, None) => reach("rejected"),
    }
}
const OPB: &[u8] = b"+-*/%&|^<>=!. ";
fn letter(v: &mut Vec<u8>) { v.push(range(b'a', b'c')) }
fn suffix(v: &mut Vec<u8>) { match pick(8) { 0 | 1 => {} 2 => v.extend(b"|f"), 3 => v.extend(b".g"), 4 => v.extend(b"[0]"), 5 => v.extend(b"(b, c)"), 6 => v.extend(b"?"), _ => v.extend(b"|f(a)|g") } }
/// two operands with prefixes and suffixes, any operator of at most three characters
pub fn ex_two() {
    let mut v = vec![];
    v.push(one_of(b" !-")); letter(&mut v); suffix(&mut v);
    v.push(one_of(b" .")); for _ in 0..2 { v.push(one_of(OPB)) } v.push(one_of(b" !-="));
    letter(&mut v); suffix(&mut v);
    judge(v, "two operands");
}
/// three operands, any operators of at most two characters
pub fn ex_three() {
    let mut v = vec![];
    letter(&mut v); v.push(b' '); v.push(one_of(OPB)); v.push(one_of(OPB)); v.push(b' ');
    v.push(one_of(b" !-")); letter(&mut v); if flag() { v.extend(b"|f") } v.push(b' '); v.push(one_of(OPB)); v.push(one_of(OPB)); v.push(b' '); letter(&mut v);
    judge(v, "three operands");
}
/// four to five operands, operators of one character
pub fn ex_many() {
    let n = bound(4, 5);
    let mut v = vec![];
    letter(&mut v);
    for _ in 1..n { v.push(b' '); v.push(one_of(b"+-*/%&|^<>")); v.push(b' '); letter(&mut v) }
    judge(v, "many operands");
}
/// groups, tuples, arrays, indexes and ranges around operators
pub fn ex_group() {
    let mut v = vec![];
    let (o, c): (&[u8], &[u8]) = [(&b"("[..], &b")"[..]), (b"[", b"]"), (b"a(", b")"), (b"a[", b"]"), (b"a|f(", b")"), (b"(", b",)")][pick(6)];
    let op = |v: &mut Vec<u8>| { v.push(one_of(b"+-*,|&.=<")); v.push(one_of(b"|&.= ,")) };
    match pick(3) {
        0 => { v.extend(o); letter(&mut v); op(&mut v); letter(&mut v); v.extend(c); op(&mut v); letter(&mut v) }
        1 => { letter(&mut v); op(&mut v); v.extend(o); letter(&mut v); op(&mut v); letter(&mut v); v.extend(c) }
        _ => { v.extend(o); v.extend(o); letter(&mut v); op(&mut v); letter(&mut v); v.extend(c); op(&mut v); letter(&mut v); v.extend(c); suffix(&mut v) }
    }
    judge(v, "groups");
}
/// any text of expression characters
pub fn ex_any() {
    let n = 1 + pick(bound(5, 6));
    let mut v = vec![];
    for _ in 0..n { v.push(one_of(b"ab1 .,()[]!-+|&=<?:")) }
    judge(v, "any text");
}
/// where the parenthesis opened in front of `b` closes, if all of this consists of Rust tokens; None: it does not, or never closes
fn closes(b: &[u8]) -> Option<usize> {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let letter = |c: u8| c.is_ascii_alphabetic();
    let (mut i, mut open, mut word) = (0, 0usize, false);
    while i < b.len() {
        let c = b[i];
        if word && (c == b'"' || c == b'\'') { return None }
        word = letter(c);
        match c {
            b'(' => open += 1,
            b')' if open == 0 => return Some(i),
            b')' => open -= 1,
            b'"' => { i += 1; while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { if !(at(i + 1) == b'\\' || at(i + 1) == b'"' || at(i + 1) == b'\'') { return None } i += 1 } i += 1 } if i >= b.len() || letter(at(i + 1)) { return None } }
            b'\'' => {
                if at(i + 1) == b'\\' { if !(at(i + 2) == b'\\' || at(i + 2) == b'"' || at(i + 2) == b'\'') || at(i + 3) != b'\'' { return None } i += 3 }
                else if at(i + 1) == b'\'' { return None }
                else if at(i + 2) == b'\'' { i += 2 }
                else if letter(at(i + 1)) { i += 1; while letter(at(i + 1)) { i += 1 } if at(i + 1) == b'\'' { return None } continue_word(&mut word) }
                else { return None }
                if letter(at(i + 1)) { return None }
            }
            b'\\' => return None,
            _ => {}
        }
        i += 1;
    }
    None
}
fn continue_word(w: &mut bool) { *w = true }
/// the arguments of a Rust macro, with strings, characters and parentheses among them
pub fn ex_macro() {
    let n = pick(bound(7, 9));
    let v: Vec<u8> = (0..n).map(|_| one_of(b"()\"'\\x,")).collect();
    let next = [&b""[..], b"{{ m!(\")\", ')', '\"', '\\'') }}", b"\" ) ' {{ b!(c) }}"][pick(3)];
    // spaces, since a delimiter ends with what follows the call
    let call = [&b"p::m!("[..], b"m! ("][flag() as usize];
    let all = [&v[..], b")"].concat();
    let Some(end) = closes(&all) else { return };
    if end + 1 != all.len() { return }
    let text = [b"a{{ ", call, &all[..], b" }}", next].concat();
    let text = unsafe { String::from_utf8_unchecked(text) };
    let Some(ast) = parse(&text) else { fail("a call of a Rust macro is rejected") };
    let nodes = ast.nodes();
    check(nodes.len() == [2, 3, 4][if next.is_empty() { 0 } else if next[0] == b'{' { 1 } else { 2 }], "a call of a Rust macro swallows what is behind it");
    let askama_parser::Node::Expr(_, e) = &nodes[1] else { fail("a call of a Rust macro is no expression") };
    let mut o = vec![]; show(e, &mut o);
    check_eq(&o, &[if call[0] == b'p' { &b"(macro::p::m "[..] } else { b"(macro::m " }, &v[..], b")"].concat(), "a Rust macro does not get its arguments");
    reach("macro");
}
