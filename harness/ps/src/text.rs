//! Literal text, comments and raw blocks.
use vf::*;
use crate::ast::*;
use askama_parser::Node;
use askama_parser::node::{Lit, Whitespace, Ws};
fn is_w(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\r' | b'\n') }
fn delim(b: &[u8], i: usize) -> bool { i + 1 < b.len() && b[i] == b'{' && (b[i + 1] == b'{' || b[i + 1] == b'%' || b[i + 1] == b'#') }
fn has_delim(b: &[u8]) -> bool { (0..b.len()).any(|i| delim(b, i)) }
fn check_lit(l: &Lit<'_>, want: &[u8]) {
    let mut o = vec![]; lit_of(l, &mut o);
    check_eq(&o, want, "literal text is kept");
    let mut a = 0; while a < want.len() && is_w(want[a]) { a += 1 }
    let mut z = want.len(); while z > a && is_w(want[z - 1]) { z -= 1 }
    check(l.lws.len() == a && l.rws.len() == want.len() - z, "leading and trailing whitespace is split off exactly");
}
fn sss(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
fn any_text(max: usize, set: &[u8]) -> Vec<u8> {
    let n = pick(max + 1); let mut v = vec![];
    for _ in 0..n { match pick(4) { 0 => push_utf8(&mut v, 2), 1 => push_utf8(&mut v, 3), _ => v.push(one_of(set)) } }
    v
}
/// text without an opening delimiter is one literal
pub fn txt_plain() {
    let v = if flag() { sstr(bound(8, 9), b"{%#} a\n\t").into_bytes() } else { any_text(bound(4, 5), b"{%#} a\n\r") };
    if has_delim(&v) || v.is_empty() { return }
    match parse(sss(&v)) {
        Some(a) => match a.nodes() { [Node::Lit(l)] => { reach("text"); check_lit(l, &v) } _ => fail("plain text is not one literal") },
        None => fail("plain text is rejected"),
    }
}
/// any characters at all at the edges of a text
pub fn txt_edges() {
    const WIDE: &[&str] = &["\u{85}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{3000}", "\u{200b}", "\u{301}", "\u{10ffff}"];
    let n = 1 + pick(bound(3, 4));
    let mut t = vec![];
    for _ in 0..n { match pick(3) { 0 => t.extend_from_slice(WIDE[pick(WIDE.len())].as_bytes()), 1 => push_utf8(&mut t, 2 + pick(2)), _ => t.push(ascii()) } }
    let place = pick(5);
    let (a, b): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"{{ x }}", b""), (b"", b"{{ x }}"), (b"{# c #}", b"{# c #}"), (b"{% if x %}", b"{% endif %}")][place];
    if has_delim(&t) || !b.is_empty() && t.last() == Some(&b'{') { return }
    let v = [a, &t, b].concat();
    let Some(ast) = parse(sss(&v)) else { fail("a template with text at its edges is rejected") };
    let lit = match (place, ast.nodes()) { (0, [Node::Lit(l)]) => l, (1, [_, Node::Lit(l)]) => l, (2, [Node::Lit(l), _]) => l, (3, [_, Node::Lit(l), _]) => l, (4, [Node::If(i)]) => match &i.branches[0].nodes[..] { [Node::Lit(l)] => l, _ => fail("text in a branch is not one literal") }, _ => fail("text is not one literal") };
    reach("text");
    check_lit(lit, &t)
}
/// text between tags is kept exactly
pub fn txt_between() {
    let t1 = sstr(bound(3, 4), b"{%#} a\n").into_bytes();
    let t2 = sstr(bound(4, 4), b"{%#} }a\n").into_bytes();
    let (tag, n): (&[u8], usize) = [(&b"{{ x }}"[..], 1usize), (b"{# c #}", 1), (b"{% let a = b %}", 1), (b"{% if x %}", 2), (b"{% for a in b %}", 3)][pick(5)];
    let close: &[u8] = [&b""[..], b"{% endif %}", b"{% endfor %}"][n - 1];
    if has_delim(&t2) || (!close.is_empty() && t2.last() == Some(&b'{')) { return }
    let v = [&t1[..], tag, &t2, close].concat();
    if (0..t1.len()).any(|i| delim(&v, i)) { return }
    let Some(a) = parse(sss(&v)) else { fail("a template with text around a tag is rejected") };
    let mut ns = a.nodes();
    if !t1.is_empty() { match ns { [Node::Lit(l), rest @ ..] => { check_lit(l, &t1); ns = rest } _ => fail("text before the tag is lost") } }
    let inner: &[Node<'_>] = match ns {
        [Node::If(i)] if n == 2 => &i.branches[0].nodes,
        [Node::Loop(l)] if n == 3 => &l.body,
        [_, rest @ ..] if n == 1 => rest,
        _ => fail("unexpected nodes"),
    };
    match inner { [] => check(t2.is_empty(), "text after the tag is lost"), [Node::Lit(l)] => { reach("text after"); check_lit(l, &t2) } _ => fail("unexpected nodes in the rest") }
}
fn sign(c: u8) -> Option<Whitespace> { match c { b'+' => Some(Whitespace::Preserve), b'-' => Some(Whitespace::Suppress), b'~' => Some(Whitespace::Minimize), _ => None } }
fn comment_end(v: &[u8]) -> Option<usize> {
    let mut d = 0; let mut i = 2;
    loop {
        if i + 1 >= v.len() { return None }
        if v[i] == b'{' && v[i + 1] == b'#' { d += 1; i += 2 }
        else if v[i] == b'#' && v[i + 1] == b'}' { i += 2; if d == 0 { return Some(i) } d -= 1 }
        else { i += 1 }
    }
}
/// comments nest and vanish, the text behind is kept
pub fn txt_comment() {
    let mut v = b"{#".to_vec();
    v.extend(sstr(bound(7, 8), b"{#}-+a ").into_bytes());
    v.extend([&b"#}"[..], b"#}#}", b"-#}", b" #}x", b"~#} \n"][pick(5)]);
    let Some(e) = comment_end(&v) else { check(parse(sss(&v)).is_none(), "an unclosed comment is an error"); return };
    let rest = &v[e..];
    if has_delim(rest) { return }
    let Some(a) = parse(sss(&v)) else { fail("a closed comment is rejected") };
    let (c, t) = match a.nodes() { [Node::Comment(c)] => (c, &b""[..]), [Node::Comment(c), Node::Lit(l)] => { check_lit(l, rest); (c, rest) } _ => fail("a comment is not a comment node") };
    check(t.len() == rest.len(), "text behind a comment is kept");
    let inner = &v[2..e - 2];
    let p = inner.first().and_then(|c| sign(*c));
    let n = if inner.len() > p.is_some() as usize { inner.last().and_then(|c| sign(*c)) } else { None };
    check(c.ws == Ws(p, n), "whitespace control of a comment");
    reach("comment");
}
/// raw blocks keep their content verbatim
pub fn txt_raw() {
    let mut c = sstr(3, b"{%}#- a").into_bytes();
    c.extend([&b""[..], b"{{ x }}", b"{% if a %}", b"{% raw %}", b"{# c", b"{% endra %}", b"{% endraws %}", b" {{ \"", b"{%endfor%}{%"][pick(9)]);
    c.extend(sstr(2, b"{%} a").into_bytes());
    let (s1, s2, s3, s4) = (one_of(b" -"), one_of(b" +"), one_of(b" ~"), one_of(b" -"));
    let v = [&b"{%"[..], &[s1], b" raw ", &[s2], b"%}", &c, b"{%", &[s3], b" endraw ", &[s4], b"%}tail"].concat();
    let Some(a) = parse(sss(&v)) else { fail("a raw block is rejected") };
    match a.nodes() {
        [Node::Raw(r), Node::Lit(l)] => { check_lit(&r.lit, &c); check_lit(l, b"tail"); check(r.ws1 == Ws(sign(s1), sign(s2)) && r.ws2 == Ws(sign(s3), sign(s4)), "whitespace control of raw"); reach("raw") }
        _ => fail("a raw block is not a raw node"),
    }
}
/// whitespace signs of every tag end up where they were written
pub fn txt_signs() {
    let s: Vec<u8> = (0..6).map(|i| if i < 4 { one_of(b" +-~") } else { one_of(b" -") }).collect();
    let w = |a: usize, b: usize| Ws(sign(s[a]), sign(s[b]));
    let t = |a: usize, body: &str, b: usize| [&b"{%"[..], &[s[a]], body.as_bytes(), &[s[b]], b"%}"].concat();
    let k = pick(12);
    let v = match k {
        0 => [&b"{{"[..], &[s[0]], b" a ", &[s[1]], b"}}"].concat(),
        1 => t(0, " let a = b ", 1), 2 => t(0, " include \"a\" ", 1), 3 => t(0, " import \"a\" as b ", 1), 4 => t(0, " call m(a) ", 1),
        5 => [t(0, " if a ", 1), t(2, " else ", 3), t(4, " endif ", 5)].concat(),
        6 => [t(0, " for a in b ", 1), t(2, " else ", 3), t(4, " endfor ", 5)].concat(),
        7 => [t(0, " block a ", 1), t(2, " endblock a ", 3)].concat(),
        8 => [t(0, " macro a(b) ", 1), t(2, " endmacro a ", 3)].concat(),
        9 => [t(0, " filter a ", 1), t(2, " endfilter ", 3)].concat(),
        10 => [t(0, " match a ", 1), t(2, " when b ", 3), t(4, " endmatch ", 5)].concat(),
        _ => [b"{% for a in b %}".to_vec(), t(0, " break ", 1), t(2, " continue ", 3), b"{% endfor %}".to_vec()].concat(),
    };
    let Some(a) = parse(sss(&v)) else { fail("whitespace control is rejected") };
    let ok = match (k, &a.nodes()[0]) {
        (0, Node::Expr(x, _)) => *x == w(0, 1), (1, Node::Let(l)) => l.ws == w(0, 1), (2, Node::Include(l)) => l.ws == w(0, 1), (3, Node::Import(l)) => l.ws == w(0, 1), (4, Node::Call(l)) => l.ws == w(0, 1),
        (5, Node::If(i)) => i.branches[0].ws == w(0, 1) && i.branches[1].ws == w(2, 3) && i.ws == w(4, 5),
        (6, Node::Loop(l)) => l.ws1 == w(0, 1) && l.ws2 == w(2, 3) && l.ws3 == w(4, 5),
        (7, Node::BlockDef(b)) => b.ws1 == w(0, 1) && b.ws2 == w(2, 3), (8, Node::Macro(b)) => b.ws1 == w(0, 1) && b.ws2 == w(2, 3), (9, Node::FilterBlock(b)) => b.ws1 == w(0, 1) && b.ws2 == w(2, 3),
        (10, Node::Match(m)) => m.ws1 == w(0, 1) && m.arms[0].ws == w(2, 3) && m.ws2 == w(4, 5),
        (11, Node::Loop(l)) => matches!(&l.body[..], [Node::Break(x), Node::Continue(y)] if *x == w(0, 1) && *y == w(2, 3)),
        _ => false,
    };
    check(ok, "whitespace control signs");
}
/// comments made of their own delimiters, signs and text
pub fn txt_comment_nest() {
    const P: &[&[u8]] = &[b"{#", b"#}", b"-", b"+", b"~", b"a", b" ", b"{", b"}", b"#", b"{%", b"-#}", b"{#-", b"{{ x }}"];
    let mut v = b"{#".to_vec();
    let n = pick(bound(6, 7));
    for _ in 0..n { v.extend(P[pick(P.len())]) }
    v.extend([&b"#}"[..], b"-#}tail", b"#}#}"][pick(3)]);
    comment(v);
}
/// long and deeply nested comments
pub fn txt_comment_long() {
    const N: &[usize] = &[1, 2, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 1023, 1024, 1025];
    let n = N[pick(N.len())];
    let s = |x: &[u8]| if x[0] == b'.' { vec![] } else { x.to_vec() };
    let (a, b) = (s([&b"."[..], b"-", b"+"][pick(3)]), s([&b"."[..], b"-", b"~"][pick(3)]));
    let (open, close): (&[u8], &[u8]) = [(&b"x"[..], &b""[..]), (b"{#", b"#}"), (b"{# a", b" #}"), (b"{#-", b"-#}"), (b"{", b""), (b"#", b"}"), (b"{%", b"%}"), (b"{# #}", b""), (b"\n", b"")][pick(9)];
    let mut v = b"{#".to_vec(); v.extend(&a); v.push(b'.');
    v.extend(open.repeat(n)); v.push(one_of(b" a#{")); v.extend(close.repeat(n)); v.push(b'.');
    v.extend(&b); v.extend(b"#}"); v.extend([&b""[..], b"tail", b" #}"][pick(3)]);
    comment(v);
}
fn comment(v: Vec<u8>) {
    let Some(e) = comment_end(&v) else { check(parse(sss(&v)).is_none(), "an unclosed comment is an error"); reach("unclosed"); return };
    let rest = &v[e..];
    if has_delim(rest) { return }
    let Some(a) = parse(sss(&v)) else { fail("a closed comment is rejected") };
    let (c, t) = match a.nodes() { [Node::Comment(c)] => (c, &b""[..]), [Node::Comment(c), Node::Lit(l)] => { check_lit(l, rest); (c, rest) } _ => fail("a comment is not a comment node") };
    check(t.len() == rest.len(), "text behind a comment is kept");
    let inner = &v[2..e - 2];
    let p = inner.first().and_then(|c| sign(*c));
    let n = if inner.len() > p.is_some() as usize { inner.last().and_then(|c| sign(*c)) } else { None };
    check(c.ws == Ws(p, n), "whitespace control of a comment");
    reach("comment");
}
const TL: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257, 1000, 1023, 1024, 1025];
/// delimiters, delimiter-like characters and white space at any place of a long text
pub fn txt_long() {
    let fill: &[u8] = [&b"x"[..], b" ", b"\xc3\xa9", b"{ "][pick(4)];
    let mut t = fill.repeat(TL[pick(TL.len())]);
    t.extend((0..pick(3)).map(|_| one_of(b"{%#a \n")));
    let mut u = (0..pick(3)).map(|_| one_of(b" a{}#\n")).collect::<Vec<u8>>();
    u.extend(fill.repeat([0, 1, 300][pick(3)]));
    let (tag, n): (&[u8], usize) = [(&b"{{ x }}"[..], 1usize), (b"{# c #}", 1), (b"{% let a = b %}", 1), (b"{% raw %}{{{% endraw %}", 1)][pick(4)];
    let v = [&t[..], tag, &u].concat();
    if (0..t.len()).any(|i| delim(&v, i)) || has_delim(&u) { return }
    let Some(a) = parse(sss(&v)) else { fail("a long text around a tag is rejected") };
    let mut ns = a.nodes();
    if !t.is_empty() { match ns { [Node::Lit(l), rest @ ..] => { check_lit(l, &t); ns = rest } _ => fail("long text before the tag is lost") } }
    match &ns[n..] { [] => check(u.is_empty(), "long text after the tag is lost"), [Node::Lit(l)] => { reach("text after"); check_lit(l, &u) } _ => fail("unexpected nodes after a long text") }
}
/// long raw blocks
pub fn txt_raw_long() {
    const P: &[&[u8]] = &[b"x", b"{{ a }}", b"{% if %}", b"{#", b"{% raw %}", b"{", b"{%", b"{% endra", b" ", b"{% end raw %}"];
    let k = pick(P.len());
    let mut c = P[k].repeat(TL[pick(TL.len())]);
    c.push(one_of(b"a {%\n"));
    c.extend(P[pick(P.len())]);
    let tail: &[u8] = [&b""[..], b"tail", b"{% raw %}q{% endraw %}"][pick(3)];
    let (s1, s2, s3, s4) = (one_of(b" -"), one_of(b" +"), one_of(b" ~"), one_of(b" -"));
    let v = [&b"{%"[..], &[s1], b" raw ", &[s2], b"%}", &c, b"{%", &[s3], b" endraw ", &[s4], b"%}", tail].concat();
    let Some(a) = parse(sss(&v)) else { fail("a long raw block is rejected") };
    match a.nodes() {
        [Node::Raw(r), rest @ ..] => {
            check_lit(&r.lit, &c); check(r.ws1 == Ws(sign(s1), sign(s2)) && r.ws2 == Ws(sign(s3), sign(s4)), "whitespace control of a long raw block");
            match rest { [] => check(tail.is_empty(), "text behind a long raw block"), [Node::Lit(l)] => check_lit(l, tail), [Node::Raw(r)] => check_lit(&r.lit, b"q"), _ => fail("nodes behind a long raw block") }
            reach("raw")
        }
        _ => fail("a long raw block is not a raw node"),
    }
}
/// any kind of text between any two tags
pub fn txt_two_tags() {
    const T: &[(&[u8], &[u8])] = &[(b"{{ x }}", b""), (b"{# c #}", b""), (b"{% let a = b %}", b""), (b"{% if x %}", b"{% endif %}"), (b"{% for a in b %}", b"{% endfor %}"), (b"{% block b %}", b"{% endblock %}"), (b"{% macro b() %}", b"{% endmacro %}"), (b"{% filter b %}", b"{% endfilter %}"), (b"{% if x %}{% else %}", b"{% endif %}"), (b"{% match x %}{% when y %}", b"{% endmatch %}"), (b"{% raw %}", b"{% endraw %}"), (b"{% call m() %}", b""), (b"{% include \"a\" %}", b""), (b"{% import \"a\" as b %}", b""), (b"{% for a in b %}{% else %}", b"{% endfor %}"), (b"{% for a in b %}{% break %}", b"{% endfor %}"), (b"{% call m() -%}", b"")];
    let (a, b) = (T[pick(T.len())], T[pick(T.len())]);
    let n = pick(bound(4, 5)); let t: Vec<u8> = (0..n).map(|_| one_of(b"{%#} a\n\t\r")).collect();
    if has_delim(&t) || t.last() == Some(&b'{') { return }
    // text behind the first opening, in front of the second
    let raw = a.0 == b"{% raw %}";
    let v = if raw { [a.0, &t, a.1, b.0, b.1].concat() } else { [a.0, &t, b.0, b.1, a.1].concat() };
    let Some(ast) = parse(sss(&v)) else { fail("text between two tags is rejected") };
    let inner: &[Node<'_>] = match ast.nodes() {
        [Node::If(i), ..] => &i.branches.last().unwrap().nodes,
        [Node::Loop(l), ..] => if l.else_nodes.is_empty() && !matches!(a.0, b"{% for a in b %}{% else %}") { if matches!(l.body.first(), Some(Node::Break(_))) { &l.body[1..] } else { &l.body } } else { &l.else_nodes },
        [Node::BlockDef(b), ..] => &b.nodes, [Node::Macro(b), ..] => &b.nodes, [Node::FilterBlock(b), ..] => &b.nodes,
        [Node::Match(m), ..] => &m.arms.last().unwrap().nodes,
        [Node::Raw(r), ..] if raw => { check_lit(&r.lit, &t); return }
        [_, rest @ ..] => rest,
        [] => fail("no nodes"),
    };
    match inner { [Node::Lit(l), ..] if !t.is_empty() => { reach("text"); check_lit(l, &t) } [Node::Lit(_), ..] => fail("text from nowhere"), _ => check(t.is_empty(), "text between two tags is lost") }
}
