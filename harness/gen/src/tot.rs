//! P27: the derive macro ends, and either reports an error or generates code Rust's lexer takes
use crate::*;
const DONE: &str = "the derive macro ends, and either reports an error or generates tokens";
/// names out of other than ASCII characters, and `crate`, are left to rustc, which reports those Rust does not know
fn derive_it(it: &str, ascii: bool) {
    allow_panic(false);
    debug(it.as_bytes());
    match derive::verif::derive(it) {
        Err(e) => { debug(e.as_bytes()); reach("error") }
        Ok(code) => { debug(code.as_bytes()); if ascii { check(code.parse::<proc_macro2::TokenStream>().is_ok(), DONE) } reach("code") }
    }
}
fn setup() { env("CARGO_MANIFEST_DIR", "/vfs") }
fn syms(n: usize, set: &[u8]) -> Vec<u8> { (0..n).map(|_| one_of(set)).collect() }
const CHARS: &[u8] = b" a1\"'{}%#()[]|.,:=&<>!?-+~_/*\\\n";
/// symbolic bytes in every kind of tag, through the generator
pub fn dt_source() {
    setup();
    const OPEN: [(&str, &str); 22] = [("{{", "}}"), ("{{ a", "}}"), ("{{ a|", "}}"), ("{{ a(", ") }}"), ("{% if ", "%}x{% endif %}"), ("{% let ", " %}{{ a }}"), ("{% let a = ", "%}{{ a }}"), ("{% for ", " in a %}{% endfor %}"), ("{% for a in ", " %}{{ loop.index }}{% endfor %}"), ("{% match a %}{% when ", " %}{% endmatch %}"), ("{% macro m(", ") %}{% endmacro %}{% call m(1) %}"), ("{% macro m(a) %}{{ a }}{% endmacro %}{% call m(", ") %}"), ("{% block ", " %}{% endblock %}"), ("{% filter ", " %}a{% endfilter %}"), ("{% if let ", " = a %}{% endif %}"), ("{% include \"", "\" %}"), ("{% import \"i.html\" as ", " %}"), ("{% call ", " %}"), ("", ""), ("{{ \"", "\" }}"), ("{{ '", "' }}"), ("{% raw %}", "{% endraw %}")];
    let k = pick(OPEN.len());
    let (o, e) = OPEN[k];
    let n = pick(bound(2, 3) + 1);
    let mut x = o.as_bytes().to_vec();
    x.extend(syms(n, CHARS));
    let wide = if n < 2 { pick(5) } else { 0 };
    x.extend_from_slice(["", "\u{e9}", "\u{301}", "\u{2026}", "\u{1f600}"][wide].as_bytes());
    x.extend_from_slice(e.as_bytes());
    file("/vfs/templates/t.html", &x);
    file("/vfs/templates/i.html", b"{% macro m(a) %}{% endmacro %}");
    // what a string may escape is left to rustc as well
    derive_it(&item(["", ", block = \"a\""][pick(2)]), wide == 0 && !x.contains(&b'\\'));
}
/// keywords and chosen names where names may stand
pub fn dt_names() {
    setup();
    const N: [&str; 24] = ["self", "Self", "super", "crate", "true", "false", "_", "as", "async", "gen", "loop", "writer", "r#a", "a.b", "static", "dyn", "union", "1", "macro_rules", "e\u{301}", "\u{2026}", "\u{1f600}", "\u{b2}", "\u{a0}"];
    const OPEN: [(&str, &str); 18] = [("{{ ", " }}"), ("{{ a.", " }}"), ("{{ a|", " }}"), ("{{ a.", "() }}"), ("{{ ", "() }}"), ("{{ ", "::a }}"), ("{{ a::", " }}"), ("{% let ", " = 1 %}"), ("{% let ", " %}"), ("{% for ", " in a %}{% endfor %}"), ("{% match a %}{% when ", "(a) %}{% endmatch %}"), ("{% match a %}{% when A { ", " } %}{% endmatch %}"), ("{% macro m(", ") %}{% endmacro %}{% call m(1) %}"), ("{% macro ", "() %}{% endmacro %}"), ("{% block ", " %}{% endblock %}"), ("{% filter ", " %}a{% endfilter %}"), ("{% macro m(a) %}{% endmacro %}{% call m(", " = 1) %}"), ("{% import \"i.html\" as ", " %}")];
    let (o, e) = OPEN[pick(OPEN.len())];
    let n = N[pick(N.len())];
    let x = [o, n, e].concat();
    file("/vfs/templates/t.html", x.as_bytes());
    file("/vfs/templates/i.html", b"{% macro m(a) %}{% endmacro %}");
    derive_it(&item(""), n.is_ascii() && n != "crate");
}
/// attributes of every shape
pub fn dt_attrs() {
    setup();
    file("/vfs/templates/t.html", b"{{ a }}{% block b %}{% endblock %}");
    const KEYS: [&str; 12] = ["path", "source", "ext", "escape", "block", "syntax", "config", "whitespace", "print", "foo", "a::b", "type"];
    const VALS: [&str; 14] = [" = \"t.html\"", " = \"txt\"", " = \"\"", " = \"none\"", " = 1", " = true", " = 'c'", " = b\"x\"", " = a", "", "(x)", " = (1)", " = \"a\" + \"b\"", " = \"suppress\""];
    let one = |k: usize, v: usize| [KEYS[k], VALS[v]].concat();
    let k1 = pick(12); let first = one(k1, pick(14));
    let rest = match pick(8) { 0 => String::new(), 1 => ", path = \"t.html\"".into(), 2 => ", source = \"{{ a }}\", ext = \"html\"".into(), 3 => ", source = \"{{ a\", ext = \"txt\"".into(), 4 => ", path = \"none.html\"".into(), 5 => ",, path = \"t.html\"".into(), 6 => ", source = \"a\"".into(), _ => [", ", &one(k1, 1), ", path = \"t.html\""].concat() };
    let it = match pick(9) {
        0 => ["#[template(", &first, &rest, ")] struct T;"].concat(), 1 => ["#[template(", &first, &rest, ")] enum T { A, B(i8) }"].concat(), 2 => ["#[template(", &first, &rest, ")] struct T<'a, X: A<Y = Z>, const N: usize>(&'a X) where X: B;"].concat(),
        3 => ["#[template(", &first, &rest, ")] #[template(path = \"t.html\")] union T { a: u8 }"].concat(), 4 => ["#[doc = \"x\"] #[template = \"", &rest, "\"] struct T { a: u8 }"].concat(), 5 => ["#[template] #[cfg(x)] struct T { a: u8 }", &rest[..0]].concat(), 6 => ["#[template(", &first, &rest, ")] struct r#type { r#fn: u8 }"].concat(), 7 => "struct T;".to_string(), _ => ["#[template(", &first, &rest, ")] struct __T\u{e9}<T: ?Sized + 'static = u8>(T);"].concat(),
    };
    if it.contains("print = \"") { return }
    derive_it(&it, true);
    // what is generated next to an error must lex as well
    match derive::verif::skeleton(&it) { Ok(c) => check(c.parse::<proc_macro2::TokenStream>().is_ok(), DONE), Err(e) => debug(e.as_bytes()) }
}
/// configuration files
pub fn dt_toml() {
    setup();
    file("/vfs/templates/t.html", b"{{ a }}");
    const OPEN: [(&str, &str); 12] = [("", ""), ("[general]\n", ""), ("[general]\ndirs = ", ""), ("[general]\ndirs = [\"", "\"]"), ("[general]\nwhitespace = \"", "\"\n"), ("[general]\ndefault_syntax = \"", "\"\n[[syntax]]\nname = \"a\"\n"), ("[[syntax]]\nname = \"a\"\nblock_start = \"", "\"\n"), ("[[syntax]]\n", "name = \"a\"\n"), ("[[escaper]]\npath = \"", "\"\nextensions = [\"html\"]\n"), ("[[escaper]]\npath = \"::askama::Html\"\nextensions = [\"", "\"]\n"), ("[[escaper]]\n", ""), ("[syntax]\n", "")];
    let (o, e) = OPEN[pick(OPEN.len())];
    let n = pick(bound(2, 3) + 1);
    let mut x = o.as_bytes().to_vec();
    x.extend(syms(n, b" a1\"'[]=,#{}\\-\n"));
    x.extend_from_slice(e.as_bytes());
    file("/vfs/askama.toml", &x);
    // the path of an escaper is Rust code
    derive_it(&item(""), o != OPEN[8].0);
}
/// files which use each other, also in circles
pub fn dt_graph() {
    setup();
    const F: [&str; 3] = ["t.html", "i.html", "j.html"];
    for k in 0..3 {
        let mut x = String::new();
        for n in 0..if k == 0 { bound(1, 2) } else { 1 } {
            let to = F[pick(if k == 2 { 2 } else { 3 })];
            x.push_str(&match pick(if n == 0 { 8 } else { 4 }) {
                0 => ["{% include \"", to, "\" %}"].concat(), 1 => ["{% import \"", to, "\" as q %}{% call q::m(1) %}"].concat(), 2 => String::new(), 3 => ["{% for a in b %}{% include \"", to, "\" %}{% else %}x{% endfor %}"].concat(),
                4 => ["{% extends \"", to, "\" %}{% block u %}{% call super() %}{% endblock %}"].concat(), 5 => ["{% extends \"", to, "\" %}{% block u %}{% include \"", F[pick(3)], "\" %}{% endblock %}"].concat(), 6 => ["{% block u %}{% block w %}{% endblock %}{% include \"", to, "\" %}{% endblock %}"].concat(), _ => ["{% macro m(a) %}{% include \"", to, "\" %}{% call m(a) %}{% endmacro %}{% call m(2) %}"].concat(),
            });
        }
        if k > 0 { x.push_str("{% macro m(a) %}M{{ a }}{% endmacro %}") }
        file(&at(F[k]), x.as_bytes()); debug(x.as_bytes());
    }
    derive_it(&item(["", ", block = \"u\""][pick(2)]), true);
}
/// deep and long templates
pub fn dt_deep() {
    setup();
    const NEST: [(&str, &str, &str); 10] = [("{% if a %}", "x", "{% endif %}"), ("{% for a in b %}", "{{ a }}", "{% endfor %}"), ("{% match a %}{% when b %}", "x", "{% endmatch %}"), ("{% filter f %}", "x", "{% endfilter %}"), ("{% if a %}{% else %}", "x", "{% endif %}"), ("{{ ", "a", "|f }}"), ("{% macro m(a) %}{{ a }}{% endmacro %}", "{% call m(1) %}", ""), ("{% let a = b %}", "{{ a }}", "{{ a }}"), ("{{ a }} b", "", ""), ("{# c #}", "", "\n")];
    let (o, m, e) = NEST[pick(NEST.len())];
    let n = [1, 2, 31, 63, 64, 90, 100, 105, 107, 126, 200, 400][pick(12)];
    let long = "a text which is longer than the others are, so that its length counts";
    let m = if pick(2) == 1 && m == "x" || m == "{{ a }}" { [m, long].concat() } else { m.to_string() };
    let mut x = String::new();
    let (o, e) = if o == "{{ " { ("(", ")") } else { (o, e) };
    if o == "(" { x.push_str("{{ ") }
    for _ in 0..n { x.push_str(o) } x.push_str(&m); for _ in 0..n { x.push_str(e) }
    if o == "(" { x.push_str(" }}") }
    file("/vfs/templates/t.html", x.as_bytes());
    derive_it(&item(""), true);
}

const ARG: [&str; 24] = ["a", "\"s\"", "\"{}\"", "\"{\"", "1", "1.5", "-1", "'c'", "true", "a.b", "a()", "self.a(1)", "a[0]", "(a)", "(a, 1)", "[1, a]", "[]", "()", "a|upper", "1..2", "..", "a == 1", "x = 1", "a!(b)"];
const FILTERS: [&str; 33] = ["abs", "as_ref", "deref", "capitalize", "center", "e", "escape", "filesizeformat", "fmt", "format", "indent", "into_f64", "into_isize", "join", "json", "tojson", "linebreaks", "linebreaksbr", "paragraphbreaks", "lower", "lowercase", "safe", "title", "trim", "truncate", "upper", "uppercase", "urlencode", "urlencode_strict", "wordcount", "mine", "self", "r#fn"];
fn args(max: usize) -> String {
    let n = pick(4);
    (0..n).map(|i| if n > max || n > 1 && i == 0 { [ARG[0], ARG[1], ARG[22]][pick(3)] } else { ARG[pick(ARG.len())] }).collect::<Vec<_>>().join(", ")
}
fn derive_src(x: &str) {
    file("/vfs/templates/t.html", x.as_bytes());
    file("/vfs/templates/i.html", b"{% macro m(a) %}{% endmacro %}");
    derive_it(&item(""), true)
}
/// every filter with any number and kind of arguments, on any kind of value and as filter block
pub fn dt_filters() {
    setup();
    let f = FILTERS[pick(FILTERS.len())];
    let a = args(bound(1, 2));
    let call = if a.is_empty() && flag() { f.to_string() } else { [f, "(", &a, ")"].concat() };
    let v = if a.contains(',') { ["a", "\"s\"", "1"][pick(3)] } else { ARG[pick(if a.is_empty() { 22 } else { bound(8, 22) })] };
    derive_src(&match pick(if a.contains(',') { 2 } else if a.is_empty() { 5 } else { bound(3, 5) }) {
        0 => ["{{ ", v, "|", &call, " }}"].concat(),
        1 => ["{% filter ", &call, " %}", "x{{ a }}", "{% endfilter %}"].concat(),
        2 => ["{% filter upper|", &call, "|lower %}{{ ", v, " }}{% endfilter %}"].concat(),
        3 => ["{% for y in ", v, "|", &call, " %}{{ y }}{% endfor %}"].concat(),
        _ => ["{% let y = -(", v, "|", &call, "|safe).z %}{{ y[", v, "|", &call, "] }}"].concat(),
    })
}
/// calls of all kinds with any arguments
pub fn dt_calls() {
    setup();
    let a = args(bound(1, 2));
    const C: [(&str, &str); 16] = [("{{ a(", ") }}"), ("{{ a.b(", ") }}"), ("{{ a::b(", ") }}"), ("{% for x in a %}{{ loop.cycle(", ") }}{% endfor %}"), ("{% for x in a %}{{ loop.index(", ") }}{% endfor %}"), ("{{ loop.cycle(", ") }}"), ("{% macro m() %}{% endmacro %}{% call m(", ") %}"), ("{% macro m(x) %}{{ x }}{% endmacro %}{% call m(", ") %}"), ("{% macro m(a, x) %}{{ x }}{{ a }}{% endmacro %}{% call m(", ") %}"), ("{% import \"i.html\" as i %}{% call i::m(", ") %}"), ("{% block b %}{% call super(", ") %}{% endblock %}"), ("{{ super(", ") }}"), ("{{ a!(", ") }}"), ("{{ self(", ") }}"), ("{{ (a)(", ")? }}"), ("{{ a[", "] }}")];
    let (o, e) = C[pick(C.len())];
    derive_src(&[o, &a, e].concat())
}
/// patterns of all kinds wherever patterns may stand
pub fn dt_targets() {
    setup();
    const T: [&str; 17] = ["a", "_", "1", "-1", "\"s\"", "'c'", "true", "None", "A::B", "(x)", "(x, y)", "(x,)", "()", "Some(x)", "Some with (x)", "S { x }", "S { x: y, z }"];
    const W: [(&str, &str); 4] = [("", ""), ("(", ")"), ("Some(", ", q)"), ("S with { z: ", " }")];
    let one = || { let (o, e) = W[pick(W.len())]; [o, T[pick(T.len())], e].concat() };
    let mut t = one();
    if pick(3) == 0 { t = [&t[..], [" or ", "or", ","][pick(bound(1, 3))], T[pick(T.len())]].concat() }
    const P: [(&str, &str); 9] = [("{% let ", " = a %}{{ x }}"), ("{% let ", " %}{{ x }}"), ("{% for ", " in a %}{{ x }}{% endfor %}"), ("{% for ", " in a if x == y %}{{ x }}{% endfor %}"), ("{% if let ", " = a %}{{ x }}{% endif %}"), ("{% if let ", " = a && x %}{{ x }}{% endif %}"), ("{% match a %}{% when ", " %}{{ x }}{% else %}{% endmatch %}"), ("{% match a %}{% when A %}{% when ", " %}{{ x }}{% endmatch %}"), ("{% macro m(", ") %}{% endmacro %}{% call m(1) %}")];
    let (o, e) = P[pick(P.len())];
    derive_src(&[o, &t, e].concat())
}
/// whole tags in any order
pub fn dt_tags() {
    setup();
    const T: [&str; 34] = ["x", " ", "{{ a }}", "{# c #}", "{% if a %}", "{% if let Some(x) = a %}", "{% else if a %}", "{% else %}", "{% endif %}", "{% for x in a %}", "{% for x in a if x %}", "{% endfor %}", "{% break %}", "{% continue %}", "{% match a %}", "{% when Some(x) %}", "{% endmatch %}", "{% macro m(x) %}", "{% endmacro %}", "{% call m(1) %}", "{% block u %}", "{% block w %}", "{% endblock %}", "{% filter upper %}", "{% endfilter %}", "{% let x = a %}", "{% let x %}", "{% include \"i.html\" %}", "{% extends \"i.html\" %}", "{% import \"i.html\" as q %}", "{% raw %}", "{% endraw %}", "{% call super() %}", "{{ loop.index }}"];
    // one tag after another, closed in the right order in the end
    let n = 1 + pick(bound(3, 4));
    let mut x = String::new();
    let mut open: Vec<&str> = vec![];
    for _ in 0..n {
        let t = T[pick(T.len())];
        x.push_str(t);
        let close = match t { "{% if a %}" | "{% if let Some(x) = a %}" => "{% endif %}", "{% for x in a %}" | "{% for x in a if x %}" => "{% endfor %}", "{% match a %}" => "{% endmatch %}", "{% macro m(x) %}" => "{% endmacro %}", "{% block u %}" | "{% block w %}" => "{% endblock %}", "{% filter upper %}" => "{% endfilter %}", "{% raw %}" => "{% endraw %}", _ => "" };
        if !close.is_empty() { open.push(close) } else if open.last() == Some(&t) { open.pop(); }
    }
    while let Some(c) = open.pop() { x.push_str(c) }
    file("/vfs/templates/t.html", x.as_bytes());
    file("/vfs/templates/i.html", b"{% macro m(a) %}{% endmacro %}{% block u %}I{% endblock %}");
    derive_it(&item(["", ", block = \"u\""][if n < 3 { pick(2) } else { 0 }]), true)
}
