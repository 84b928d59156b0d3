//! Custom delimiters, and the position of errors.
use vf::*;
use askama_parser::{Ast, Node, ParseError, Syntax};
/// pieces of templates; $B %B $E %E $C %C stand for the delimiters
const PIECES: &[&str] = &["T", "$E x|f(1) %E", "$B- if a +%BT$B else ~%B$E- y %E$B endif -%B", "$B for a in b %BT$B break %B$B endfor %B", "$C- c $C n %C T -%C", "$B raw %B $E T $B endfor %B $C T$B- endraw %B", "$B match a %B $C x %C $B when A with (b) %BT$B else %B$E c %E$B endmatch %B", "$B block n %BT$B endblock n %B", "$B macro m(a) %B$E a %E$B endmacro %B$B call m(T) %B", "$B filter f|g %BT$B endfilter %B", "$B let a = b %B", "$E [a, (b,)] %E", "$B include \"T\" %B"];
fn subst(t: &[u8], text: &[u8], d: &[&[u8]; 6]) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0;
    while i < t.len() {
        let k = if i + 1 < t.len() && (t[i] == b'$' || t[i] == b'%') { match t[i + 1] { b'B' => 0, b'E' => 2, b'C' => 4, _ => 9 } } else { 9 };
        if k < 9 { o.extend_from_slice(d[k + (t[i] == b'%') as usize]); i += 2 } else { if t[i] == b'T' { o.extend_from_slice(text) } else { o.push(t[i]) } i += 1 }
    }
    o
}
fn norm(x: &[u8], d: &[&[u8]; 6]) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0;
    while i < x.len() { match (0..6).find(|&k| x.len() - i >= d[k].len() && eq(&x[i..i + d[k].len()], d[k])) { Some(k) => { o.push(k as u8); i += d[k].len() } None => { o.push(x[i]); i += 1 } } }
    o
}
const DEF: [&[u8]; 6] = [b"{%", b"%}", b"{{", b"}}", b"{#", b"#}"];
fn compare(d: [&[u8]; 6]) {
    let text: Vec<u8> = (0..pick(3)).map(|_| one_of(b"a \n;(")).collect();
    let mut t = vec![];
    for _ in 0..bound(2, 3) { t.extend(PIECES[pick(PIECES.len())].as_bytes()) }
    let (a, b) = (subst(&t, &text, &d), subst(&t, &text, &DEF));
    let s = |x: &[u8]| -> String { unsafe { String::from_utf8_unchecked(x.to_vec()) } };
    let (a, b) = (s(&a), s(&b));
    let ds: Vec<String> = d.iter().map(|x| s(x)).collect();
    let syn = Syntax { block_start: &ds[0], block_end: &ds[1], expr_start: &ds[2], expr_end: &ds[3], comment_start: &ds[4], comment_end: &ds[5] };
    let x = Ast::from_str(&a, None, &syn);
    let y = Ast::from_str(&b, None, &Syntax::default());
    emit_n(x.is_ok() as u64);
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            reach("both parse");
            check(x.nodes().len() == y.nodes().len(), "same number of nodes");
            for (p, q) in x.nodes().iter().zip(y.nodes()) {
                match (p, q) {
                    // comments keep delimiters in their content
                    (Node::Comment(p), Node::Comment(q)) => {
                        check(p.ws == q.ws, "the same signs at a comment");
                        check_eq(&norm(p.content.as_bytes(), &d), &norm(q.content.as_bytes(), &DEF), "the same content of a comment");
                    }
                    (Node::Raw(p), Node::Raw(q)) => {
                        check(p.ws1 == q.ws1 && p.ws2 == q.ws2 && p.lit.lws == q.lit.lws && p.lit.rws == q.lit.rws, "the same signs and white space of a raw block");
                        check_eq(&norm(p.lit.val.as_bytes(), &d), &norm(q.lit.val.as_bytes(), &DEF), "the same content of a raw block");
                    }
                    _ => check(p == q, "the same tree with other delimiters"),
                }
            }
        }
        (Err(_), Err(_)) => reach("both fail"),
        _ => fail("acceptance depends on the delimiters"),
    }
}
/// delimiters of two to three symbolic bytes
pub fn syn_symbolic() {
    let mut ds: Vec<Vec<u8>> = vec![];
    let k = pick(3);
    // the first byte of a delimiter occurs nowhere else: no delimiter straddles
    for i in 0..6 { let n = if k == 0 { 2 } else if k == 1 { 3 } else { 2 + i % 3 }; ds.push((0..n).map(|j| one_of(if j == 0 { b"@$`\\" } else { b"#=:!{}%" })).collect()) }
    for i in 0..6 { for j in 0..i { assume(!eq(&ds[i][..2], &ds[j][..2])) } }
    compare([&ds[0], &ds[1], &ds[2], &ds[3], &ds[4], &ds[5]]);
}
/// a list of delimiters as people write them
pub fn syn_list() {
    const L: &[[&str; 6]] = &[["<@", "@>", "<:", ":>", "<#", "#>"], ["<%", "%>", "${", "}$", "<!--", "-->"], ["[[%", "%]]", "[[=", "=]]", "[[#", "#]]"], ["{!", "!}", "{$", "$}", "{*", "*}"], ["{%", "%}", "{%%", "%%}", "{#", "#}"], ["%{", "}%", "%{{", "}}%", "%#", "#%"], ["@begin", "@end", "@=", "=@", "@@#", "#@@"]];
    let d = L[pick(L.len())];
    // one delimiter being a prefix of another is rejected when the configuration is read
    for (i, j) in [(0, 2), (0, 4), (2, 4)] { if d[i].starts_with(d[j]) || d[j].starts_with(d[i]) { return } }
    compare([d[0].as_bytes(), d[1].as_bytes(), d[2].as_bytes(), d[3].as_bytes(), d[4].as_bytes(), d[5].as_bytes()]);
}
fn undebug(s: &str) -> Option<(Vec<u8>, bool)> {
    let (s, cut) = match s.strip_suffix("...") { Some(s) if s.ends_with('"') => (s, true), _ => (s, false) };
    let b = s.as_bytes();
    if b.len() < 2 || b[0] != b'"' || b[b.len() - 1] != b'"' { return None }
    let b = &b[1..b.len() - 1];
    let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' { o.push(b[i]); i += 1; continue }
        match *b.get(i + 1)? { b'n' => o.push(b'\n'), b'r' => o.push(b'\r'), b't' => o.push(b'\t'), b'0' => o.push(0), c @ (b'"' | b'\\' | b'\'') => o.push(c), _ => return None }
        i += 2;
    }
    Some((o, cut))
}
fn locate(src: &str) {
    let Err(e) = Ast::from_str(src, None, &Syntax::default()) else { reach("ok"); return };
    let ParseError::Details { row, column, source_after, file_path, .. } = &e else { fail("no details") };
    emit_n(*row as u64); emit_n(*column as u64); emits(source_after);
    check(file_path.is_none(), "no path for an inline template");
    let Some((after, cut)) = undebug(source_after) else { return };
    // the reported position
    let b = src.as_bytes();
    let (mut r, mut i) = (0, 0);
    while r < *row { if i >= b.len() { fail("the reported row does not exist") } if b[i] == b'\n' { r += 1 } i += 1 }
    for _ in 0..*column { if i >= b.len() || b[i] == b'\n' { fail("the reported column does not exist") } i += 1; while i < b.len() && b[i] & 0xc0 == 0x80 { i += 1 } }
    check(after.len() <= b.len() - i && eq(&after, &b[i..i + after.len()]), "the excerpt is the text at the reported position");
    let chars = after.iter().filter(|c| **c & 0xc0 != 0x80).count();
    if cut { check(chars == 40 && after.len() < b.len() - i, "a shortened excerpt has 40 characters") } else { check(after.len() == b.len() - i && chars <= 40, "a whole excerpt reaches to the end") }
    reach(if cut { "cut" } else { "whole" });
}
pub fn err_short() {
    let mut v = b"".to_vec();
    for _ in 0..pick(4) { match pick(3) { 0 => v.extend("é".as_bytes()), 1 => v.push(b'\n'), _ => v.push(one_of(b"a {")) } }
    v.extend([&b"{{"[..], b"{%", b"{#", b"{{ a", b"{% if a %}", b"{% for x in y %}\n", b"{% x\n%}", b"{{ a %}"][pick(8)]);
    for _ in 0..pick(3) { v.push(one_of(b"a+ \n.%}{")) }
    if flag() { v.extend(b"\n{{ ]") }
    locate(unsafe { std::str::from_utf8_unchecked(&v) });
}
pub fn err_long() {
    let mut v = b"\n".repeat(pick(3));
    v.extend("é".repeat([0, 1, 30, 60][pick(4)]).as_bytes());
    v.extend([&b"{{ ]"[..], b"{% bad %}", b"{{ a b", b"{% break %}", b"{% if %}"][pick(5)]);
    v.push(one_of(b" \na"));
    v.extend(["x", "é", "\n"][pick(3)].repeat([0, 10, 30 + pick(16), 100][pick(4)]).as_bytes());
    locate(unsafe { std::str::from_utf8_unchecked(&v) });
}
