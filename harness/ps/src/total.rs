//! Totality: parsing ends with a tree or an error for every text.
use vf::*;
use askama_parser::{Ast, Syntax};
fn run(v: Vec<u8>) -> bool {
    let s = unsafe { String::from_utf8_unchecked(v) };
    let r = Ast::from_str(&s, None, &Syntax::default());
    let ok = r.is_ok();
    emit_n(ok as u64);
    if let Err(e) = &r { check(matches!(e, askama_parser::ParseError::Details { .. }), "errors carry details"); }
    drop(r);
    reach(if ok { "ok" } else { "err" });
    ok
}
pub fn tot_any() { run(astr(bound(6, 7)).into_bytes()); }
pub fn tot_utf8() { let mut v = [&b""[..], b"{{", b"{%", b"{#", b"{{'", b"{{\"", b"{% if ", b"{%raw%}"][pick(8)].to_vec(); for _ in 0..pick(3) { match pick(4) { 0 => v.push(ascii()), 1 => push_char(&mut v, &['é', 'ß', 'ª', 'Ж', '\u{80}', '\u{a0}', '\u{7ff}']), 2 => push_char(&mut v, &['京', '—', '⁰', '\u{2028}', '\u{feff}', '\u{ffff}', 'ᾳ']), _ => push_char(&mut v, &['😀', '𝐚', '𐐨', '\u{10ffff}']) } } v.extend([&b""[..], b"}}", b"%}", b"'}}"][pick(4)]); run(v); }
pub fn tot_expr() { let mut v = b"{{ ".to_vec(); for _ in 0..bound(4, 5) { v.push(ascii()) } v.extend(b" }}"); run(v); }
pub const KW: &[&str] = &["call", "let", "set", "if", "for", "match", "extends", "include", "import", "block", "macro", "raw", "break", "continue", "filter", "elif", "else", "endif", "endfor", "endraw", "when", "x"];
pub fn tot_block() { let mut v = b"{%".to_vec(); v.push(one_of(b" +-~")); v.extend(KW[pick(KW.len())].as_bytes()); for _ in 0..bound(3, 4) { v.push(ascii()) } v.extend(b"%}"); run(v); }
pub fn tot_body() {
    // an opened block, arbitrary text, its end
    const P: &[(&str, &str)] = &[("{% if a %}", "{% endif %}"), ("{% for a in b %}", "{% endfor %}"), ("{% match a %}", "{% endmatch %}"), ("{% match a %}{% when b %}", "{% endmatch %}"), ("{% raw %}", "{% endraw %}"), ("{% block a %}", "{% endblock %}"), ("{% macro a(b) %}", "{% endmacro %}"), ("{% filter a %}", "{% endfilter %}"), ("{#", "#}"), ("{% let a = ", "%}"), ("{% for ", " in b %}{% endfor %}"), ("{% if let ", "= b %}{% endif %}"), ("{% match a %}{% when ", "%}{% endmatch %}"), ("{% call a(", ")%}"), ("{{ \"", "\" }}"), ("{{ '", "' }}"), ("{{ a!(", ") }}")];
    let (o, c) = P[pick(P.len())];
    let mut v = o.as_bytes().to_vec();
    for _ in 0..bound(3, 4) { v.push(ascii()) }
    v.extend(c.as_bytes());
    run(v);
}
const NEST: &[(&str, &str, &str, &str)] = &[
    ("{{ ", "(", "a", " }}"), ("{{ ", "[", "a", " }}"), ("{{ ", "!", "a", " }}"), ("{{ ", "-", "a", " }}"), ("{{ ", "a[", "a", " }}"), ("{{ ", "a(", "a", " }}"), ("{{ ", "a|f(", "a", " }}"), ("{{ ", "a+(", "a", " }}"), ("{{ ", "(a,", "a", " }}"), ("{{ ", "..(", "a", " }}"),
    ("", "{% if a %}", "x", ""), ("", "{% if a %}{% else %}", "x", ""), ("", "{% for a in b %}", "x", ""), ("", "{% for a in b %}{% else %}", "x", ""), ("", "{% filter f %}", "x", ""), ("", "{% block b %}", "x", ""), ("", "{% macro m() %}", "x", ""), ("", "{% match a %}{% when b %}", "x", ""), ("", "{% match a %}{% when b %}{% else %}", "x", ""), ("", "{#", "x", "#}"),
    ("{% let ", "(", "a", " %}"), ("{% let ", "A(", "a", " %}"), ("{% let ", "A {b:", "a", " %}"), ("{% if let ", "(a,", "b", " %}"), ("{% match a %}{% when ", "A with (", "b", " %}"), ("{% for ", "(", "a", " in b %}"), ("{% call m(", "a=(", "b", ") %}"), ("{{ ", "a!(", "b", " }}"), ("{% let ", "(a or ", "b", " %}"),
];
/// deeper nesting than the stack could hold
pub fn tot_nest() {
    let (pre, rep, mid, post) = NEST[pick(NEST.len())];
    let n = [64, 127, 128, 129, 255, 256, 257, 1000, 20_000][pick(9)];
    let mut v = pre.as_bytes().to_vec();
    for _ in 0..n { v.extend(rep.as_bytes()) }
    v.extend(mid.as_bytes()); v.push(one_of(b" )a+")); v.extend(post.as_bytes());
    run(v);
}
/// long, flat templates
pub fn tot_long() {
    const L: &[(&str, &str, &str)] = &[("{{ a", "+a", " }}"), ("{{ a", "|f", " }}"), ("{{ a", ".b", " }}"), ("{{ a", "?", " }}"), ("{{ a", "[b]", " }}"), ("{{ a", "(b)", " }}"), ("{{ [", "a,", "] }}"), ("{{ f(a", ",a", ") }}"), ("", "{{ a }}", ""), ("", "{# a #}", ""), ("{# ", "{# #}", "#}"), ("", "x\n", ""), ("{% if a %}", "{% elif b %}", "{% endif %}"), ("{% match a %}", "{% when b %}", "{% endmatch %}"), ("{{ a", "::b", " }}"), ("{% let (a", ",b", ") = c %}"), ("{% if let A", " or B", " = c %}{% endif %}"), ("{{ \"", "\\n", "\" }}"), ("", " ", ""), ("{{", " ", "a}}"), ("{{ a", "b", " }}"), ("{{ 1", "2", " }}"), ("{{ (a", ",a", ",) }}"), ("{% raw %}", "{{", "{% endraw %}"), ("{% macro m(a", ",b", ") %}{% endmacro %}"), ("{{ a", "==a", " }}"), ("{{ a", " - a", " }}")];
    let (pre, rep, post) = L[pick(L.len())];
    let n = [129, 257, 1000][pick(3)];
    let mut v = pre.as_bytes().to_vec();
    for _ in 0..n { v.extend(rep.as_bytes()) }
    v.extend(post.as_bytes()); v.push(one_of(b" x\n"));
    check(run(v), "a long template without nesting is accepted");
}
/// moderately nested templates are accepted
pub fn tot_accept() {
    const N: &[(&str, &str)] = &[("{% if a %}", "{% endif %}"), ("{% for a in b %}", "{% endfor %}"), ("{% filter f %}", "{% endfilter %}"), ("{% block b %}", "{% endblock %}"), ("{% match a %}{% when b %}", "{% endmatch %}"), ("{#", "#}"), ("{% if a %}x{% else %}", "{% endif %}")];
    let (o, c) = N[pick(N.len())];
    let n = 1 + pick(40);
    let mut v = vec![];
    for _ in 0..n { v.extend(o.as_bytes()) }
    v.push(range(b'a', b'z'));
    for _ in 0..n { v.extend(c.as_bytes()) }
    check(run(v), "nesting of at most 40 blocks is accepted");
}
/// a construct is accepted however many came before
pub fn tot_repeat() {
    const C: &[&str] = &["{% let (a, b,) = c %}", "{% let A(b,) = c %}", "{% let A { b, } = c %}", "{% for (a,) in b %}{% endfor %}", "{% if let (a, b,) = c %}x{% endif %}", "{% match a %}{% when A with (b,) %}{% when _ %}{% endmatch %}", "{% if let A or B = c %}{% endif %}", "{% match a %}{% when A or B %}{% endmatch %}", "{{ (a,) }}", "{{ [a,] }}", "{{ a(b,) }}", "{{ a|f(b,) }}", "{% call m(a,) %}", "{% call m(a=b) %}", "{% macro m(a,) %}{% endmacro %}", "{% if a %}{% elif b %}{% else %}{% endif %}", "{% for a in b if c %}{% else %}{% endfor %}", "{% filter f|g(a) %}{% endfilter %}", "{% block a %}{% endblock %}", "{% raw %}{{{% endraw %}", "{# {# #} #}", "{{ a + b * -c }}", "{{ \"a\" }}", "{{ 'a' }}", "{% let a %}", "{% if let b %}{% endif %}", "{% let A with (x, y) = c %}", "{% let ((a,),) = c %}", "{% for a in b %}{% break %}{% continue %}{% endfor %}", "{% include \"a\" %}", "{% import \"a\" as b %}", "{% if let a = b %}{% else if let (c, d,) = e %}{% endif %}", "{% match a %}{# x #}{% when B with {c, d: (e,)} %}{% else %}{% endmatch %}", "{% let () = c %}", "{% let A() = c %}", "{% let A{} = c %}", "{{ a.b }}", "{{ a[..] }}", "{{ 1..2 }}", "{{ a? }}", "{{ a!(b) }}", "{{ a::b }}"];
    let c = C[pick(C.len())];
    let sep = one_of(b" x-");
    let one = parse_nodes(c.as_bytes().to_vec());
    let n = 150;
    let mut v = vec![];
    for _ in 0..n { v.extend(c.as_bytes()); v.push(sep) }
    let many = parse_nodes(v);
    emit_n(many as u64);
    if one != usize::MAX { reach("accepted"); check(many == 2 * n, "a construct is accepted however many came before") } else { check(many == usize::MAX, "a rejected construct stays rejected") }
}
fn parse_nodes(v: Vec<u8>) -> usize {
    let s = unsafe { String::from_utf8_unchecked(v) };
    match Ast::from_str(&s, None, &Syntax::default()) { Ok(a) => a.nodes().len(), Err(_) => usize::MAX }
}
