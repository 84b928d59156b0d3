//! P35: the generated code names what it needs by absolute paths
use crate::*;
const LABEL: &str = "the generated code uses a name that the surrounding code may give another meaning";
const BODIES: &[&str] = &[
    "text", "{{ s }}", "{{ a }}{{ a }}{{ f(a) }}", "{{ (a, 1).0 }}{{ [a, 2][0] }}{{ 1..2 }}", "{{ !p }}{{ -a }}{{ a + 1 * 2 - 3 / 4 % 5 }}{{ a << 1 >> 1 & 1 | 2 ^ 3 }}", "{{ a == 1 && p || a < 2 }}", "{{ self.next()? }}{{ o? }}", "{{ n.x.y[1](2).z }}", "{{ \"a\" }}{{ 'b' }}{{ 1.5 }}{{ true }}", "{{ m!(a) }}{{ p::m!() }}{{ p::f(1) }}{{ p::C }}",
    "{{ s|escape }}{{ s|e(\"none\") }}{{ s|e(\"html\") }}{{ s|safe }}", "{{ s|json }}{{ s|tojson|safe }}", "{{ xs|join(\", \") }}{{ xs|join(s) }}", "{{ s|fmt(\"{:?}\") }}", "{{ \"{}{:?}\"|format(s, a) }}", "{{ s|as_ref }}{{ s|deref }}", "{{ s|upper|lower|trim|title|capitalize|uppercase|lowercase }}", "{{ s|truncate(3) }}{{ s|indent(4) }}{{ s|center(5) }}", "{{ s|linebreaks }}{{ s|linebreaksbr }}{{ s|paragraphbreaks }}", "{{ s|wordcount }}{{ s|urlencode }}{{ s|urlencode_strict }}", "{{ a|abs }}{{ a|into_f64 }}{{ a|into_isize }}{{ a|filesizeformat }}", "{{ s|shout }}{{ s|twice(1)|wrap(a, p) }}{{ s|x::y }}",
    "{% let y = a %}{{ y }}{% let (w, _) = (a, s) %}{% let z %}{% let z = 1 %}{{ z }}", "{% if p %}1{% else if q || p %}2{% else %}3{% endif %}", "{% if let some(y) = o %}{{ y }}{% endif %}{% if p == q %}{% endif %}{% if self.f() %}{% endif %}", "{% match o %}{% when some with (1) %}1{% when some with (y) %}{{ y }}{% when n::x { y, z: 'c' } %}{% when \"s\" or \"t\" %}{% when (y, true) %}{% when _ %}{% endmatch %}", "{% match p %}{% when true %}1{% else %}2{% endmatch %}",
    "{% for x in xs %}{{ x }}{% endfor %}", "{% for x in xs if x %}{{ loop.index }}{{ loop.index0 }}{{ loop.first }}{{ loop.last }}{% else %}none{% endfor %}", "{% for (x, y) in xs.iter().zip(ys) %}{{ loop.cycle([1, 2]) }}{{ loop.cycle(ys) }}{% break %}{% endfor %}", "{% for x in 1..a %}{% continue %}{% endfor %}{% for x in [1, 2] %}{% for y in (1..=2) %}{{ loop.last }}{% endfor %}{% endfor %}", "{% for x in self.upto(3) %}{% if loop.first %}{% endif %}{% else %}{% endfor %}",
    "{% filter upper|truncate(3) %}a{{ s }}{% if p %}b{% endif %}{% endfilter %}", "{% filter linebreaks|safe %}{% filter shout %}x{% endfilter %}{% endfilter %}", "{% raw %}{{ x }}{% endraw %}{# comment #}", "{% call m(a, s) %}{% call m(f(a), y = self.g().0) %}{% call n() %}", "{% call l::w(1) %}{% include \"i.html\" %}", "{% block c %}1{% block d %}{{ a }}{% endblock %}{% endblock %}",
];
const ROOTS: &[(&str, &str, &str)] = &[
    ("{% import \"l.html\" as l %}{% macro m(x, y) %}{{ x }}{{ y }}{{ x }}{% endmacro %}{% macro n() %}n{% endmacro %}", "", ""),
    ("{% extends \"b.html\" %}{% import \"l.html\" as l %}{% macro m(x, y) %}{{ x }}{{ y }}{{ x }}{% endmacro %}{% macro n() %}n{% endmacro %}{% block a %}{% call super() %}", "{% endblock %}", ""),
    ("{% import \"l.html\" as l %}{% macro m(x, y) %}{{ x }}{{ y }}{{ x }}{% endmacro %}{% macro n() %}n{% endmacro %}{{ s }}{% block a %}", "{% endblock %}{{ s }}", ", block = \"a\""),
    ("{% import \"l.html\" as l %}{% macro m(x, y) %}{{ x }}{{ y }}{{ x }}{% endmacro %}{% macro n() %}n{% endmacro %}", "", ", escape = \"none\", whitespace = \"minimize\""),
];
/// the identifiers the user wrote, and Rust's own words
const WORDS: &[&str] = &["impl", "for", "fn", "mut", "let", "if", "else", "match", "loop", "while", "in", "return", "break", "continue", "const", "ref", "as", "where", "self", "Self", "crate", "type", "true", "false", "move", "static", "dyn", "pub", "use", "_"];
fn ident(c: u8) -> bool { c == b'_' || c.is_ascii_alphanumeric() }
fn idents(x: &[u8]) -> Vec<&[u8]> { x.split(|c| !ident(*c)).filter(|w| !w.is_empty()).collect() }
fn judge(code: &[u8], mine: &[u8]) {
    let own = idents(mine);
    let (mut i, mut last): (usize, &[u8]) = (0, b"");
    while i < code.len() {
        let c = code[i];
        if c == b'"' { i += 1; while i < code.len() && code[i] != b'"' { i += if code[i] == b'\\' { 2 } else { 1 } } i += 1; last = b"\""; continue }
        if c == b'\'' {
            // a life time, or a character
            if code.get(i + 1) == Some(&b'\\') { i += 3; while code[i] != b'\'' { i += 1 } i += 1 } else if code.get(i + 2) == Some(&b'\'') { i += 3 } else { i += 1; while i < code.len() && ident(code[i]) { i += 1 } }
            last = b"'"; continue
        }
        if c.is_ascii_whitespace() { i += 1; continue }
        if c == b':' && code.get(i + 1) == Some(&b':') { last = b":"; i += 2; continue }
        if c == b':' { last = b"="; i += 1; continue }
        if !ident(c) { last = &code[i..i + 1]; i += 1; continue }
        let at = i; while i < code.len() && ident(code[i]) { i += 1 }
        let w = &code[at..i];
        let mut k = i; while k < code.len() && code[k].is_ascii_whitespace() { k += 1 }
        let next = |n: usize| code.get(k + n).copied().unwrap_or(0);
        let path = next(0) == b':' && next(1) == b':';
        let call = next(0) == b'(' || (next(0) == b'!' && next(1) != b'=');
        // what is named by a path or belongs to a value, what is declared here, and numbers
        let free = !matches!(last, b":" | b"." | b"fn" | b"const" | b"type" | b"let" | b"mut" | b"#") && !c.is_ascii_digit();
        let word = WORDS.iter().any(|x| x.as_bytes() == w);
        let primitive = [&b"str"[..], b"usize", b"bool", b"u8", b"char", b"isize", b"u64", b"i64"].contains(&w);
        // these two are judged on their own: they would hide everything else
        let pinned = (last == b"?" && w == b"Sized") || (last == b"=" && (w == b"Some" || w == b"None") && extension(code, at));
        if pinned { last = b"x"; continue }
        if free && !word && (path || call || primitive || c.is_ascii_uppercase()) { if !own.contains(&w) { debug(w); emit(w) } check(own.contains(&w), LABEL) }
        // a path's colon directly in front: absolute or continued; the colon of a type is one colon
        last = if word || w == b"fn" { w } else { b"x" };
    }
}
fn before(code: &[u8], mut at: usize, n: usize) -> &[u8] { while at > 0 && code[at - 1].is_ascii_whitespace() { at -= 1 } &code[at.saturating_sub(n)..at] }
/// whether this is the value of the constant EXTENSION
fn extension(code: &[u8], at: usize) -> bool { before(code, at, 1) == b"=" && { let c = &code[at.saturating_sub(120)..at]; c.windows(9).any(|w| w == b"EXTENSION") && !c.contains(&b';') } }
pub fn hygiene_head() {
    let k = pick(2);
    let c = Case { item: [item(""), ["#[template(path = \"t\")] struct T;"].concat()][pick(2)].clone(), files: vec![("t.html".into(), b"x".to_vec()), ("t".into(), b"x".to_vec())], ext: None, mime: None };
    c.put();
    let Ok(code) = derive::verif::derive(&c.item) else { fail("a template is rejected") };
    let bare = |w: &str| code.match_indices(w).any(|(i, _)| match w { "Sized" => before(code.as_bytes(), i, 1) == b"?", _ => extension(code.as_bytes(), i) });
    reach("accepted");
    if k == 0 { check(!bare("Sized"), "the generated code uses the trait Sized of the surrounding code") } else { check(!bare("Some") && !bare("None"), "the generated code uses Some and None of the surrounding code") }
}
pub fn hygiene() {
    let (head, tail, attrs) = ROOTS[pick(ROOTS.len())];
    let body = BODIES[pick(BODIES.len())];
    let around = pick(4);
    let body = [["", "{% if p %}", "{% for z in xs %}", "{% filter lower %}"][around], body, ["", "{% endif %}", "{% endfor %}", "{% endfilter %}"][around]].concat();
    let text = [head, &body, tail].concat();
    let (lib, inc, base) = ("{% macro w(x) %}{{ x }}{% endmacro %}", "i{{ s }}", "{% block a %}{{ a }}{% endblock %}{% block b %}{% endblock %}");
    let ty = pick(3);
    let (it, own) = match ty { 0 => (item(attrs), "T template"), 1 => (["#[template(path = \"t.html\"", attrs, ")] struct Tt<'a, X: Some1 + Some2, const N: usize> where X: Some3 { s: X }"].concat(), "Tt a X Some1 Some2 Some3 N usize"), _ => (["#[template(path = \"t.html\"", attrs, ")] pub enum Tt { A, B(i32) }"].concat(), "Tt") };
    let c = Case { item: it, files: vec![("t.html".into(), text.as_bytes().to_vec()), ("l.html".into(), lib.as_bytes().to_vec()), ("i.html".into(), inc.as_bytes().to_vec()), ("b.html".into(), base.as_bytes().to_vec())], ext: None, mime: None };
    c.put();
    match derive::verif::derive(&c.item) {
        Err(e) => { debug(e.as_bytes()); reach("rejected") }
        // custom filters are looked up in the module filters of the surrounding code
        Ok(code) => { debug(code.as_bytes()); judge(code.as_bytes(), [&text, " ", lib, inc, base, " filters ", own].concat().as_bytes()); reach("accepted") }
    }
}
