//! P34: mistakes are reported when the template is compiled
use crate::*;
const LABEL: &str = "a mistake in a template is not reported";
const RIGHT: &str = "a template without the mistake is rejected";
const LIB: &str = "{% macro w(x) %}{{ x }}{% endmacro %}{% macro u() %}u{% endmacro %}";
const HEAD: &str = "{% import \"lib.html\" as lib %}{% macro m(a, b) %}{{ a }}{{ b }}{% endmacro %}{% macro n() %}n{% endmacro %}";
/// where a mistake can stand: name, what is before and after it
const PLACES: &[(&str, &str, &str)] = &[
    ("top", "", ""), ("then", "{% if p %}", "{% endif %}"), ("else", "{% if p %}1{% else %}", "{% endif %}"), ("elif", "{% if p %}1{% else if q %}", "{% else %}2{% endif %}"), ("for", "{% for i in xs %}", "{% endfor %}"), ("forelse", "{% for i in xs %}1{% else %}", "{% endfor %}"),
    ("when", "{% match o %}{% when Some(z) %}", "{% when None %}{% endmatch %}"), ("matchelse", "{% match o %}{% when Some with (z) %}1{% else %}", "{% endmatch %}"), ("block", "{% block outer %}", "{% endblock %}"), ("filter", "{% filter upper|lower %}", "{% endfilter %}"), ("macro", "{% macro out(k) %}", "{% endmacro %}{% call out(1) %}"),
];
fn write(files: &[(&str, &str)], attrs: &str) -> Case { Case { item: item(attrs), files: files.iter().map(|(p, x)| (p.to_string(), x.as_bytes().to_vec())).collect(), ext: None, mime: None } }
fn accepted(c: &Case, label: &str) { c.put(); let r = derive::verif::derive(&c.item); if let Err(e) = &r { debug(e.as_bytes()) } check(r.is_ok(), label); reach("accepted") }
fn decide(wrong: bool, files: &[(&str, &str)], attrs: &str, label: &str) { let c = write(files, attrs); if wrong { c.rejected(&[LABEL, ": ", label].concat()) } else { accepted(&c, &[RIGHT, ": ", label].concat()) } }
/// the place: the text of the template with `x` standing there, the innermost place, and whether a loop is around it
fn placed(x: &str, deep: usize) -> Option<(String, [bool; 11])> {
    let (mut text, mut inside) = (x.to_string(), [false; 11]);
    for d in 0..deep {
        let k = pick(PLACES.len());
        // macros stand on the top level, and each kind of place is used once
        if inside[k] || (inside[10] && k > 0) || (k == 0 && d > 0) { return None }
        inside[k] = true;
        if k == 0 { break }
        text = [["", "-", " "][d], PLACES[k].1, ["", "\n", "é"][d], &text, ["", " ", ""][d], PLACES[k].2].concat();
    }
    Some((text, inside))
}
/// (mistake, the same without it)
const CALLS: &[(&str, &str)] = &[
    ("{% call m(1) %}", "{% call m(1, 2) %}"), ("{% call m(1, 2, 3) %}", "{% call m(1, p) %}"), ("{% call m(1, a = 2) %}", "{% call m(1, b = 2) %}"), ("{% call m(a = 1, a = 2) %}", "{% call m(b = 1, a = 2) %}"), ("{% call m(a = 1, 2) %}", "{% call m(a = 1, b = 2) %}"), ("{% call m(1, 2, b = 3) %}", "{% call m(1, 2) %}"),
    ("{% call m(1, c = 2) %}", "{% call m(1, b = c) %}"), ("{% call m() %}", "{% call m(n, m) %}"), ("{% call m %}", "{% call n() %}"), ("{% call n(1) %}", "{% call n() %}"), ("{% call n(a = 1) %}", "{%+ call n() +%}"), ("{% call nope() %}", "{% call n() %}"), ("{% call w(1) %}", "{% call lib::w(1) %}"),
    ("{% call lib::m(1, 2) %}", "{% call m(1, 2) %}"), ("{% call lib::w() %}", "{% call lib::w(1) %}"), ("{% call lib::w(1, 2) %}", "{% call lib::w(x = 1) %}"), ("{% call lib::w(y = 1) %}", "{% call lib::u() %}"), ("{% call lub::w(1) %}", "{% call lib::w((1, 2).0) %}"), ("{% call lib::super() %}", "{% call lib::u() %}"), ("{% call m(1, b, 2 %}", "{% call m(1, b) %}"),
];
const TAGS: &[(&str, &str)] = &[
    ("{% include \"no.html\" %}", "{% include \"inc.html\" %}"), ("{% include inc.html %}", "{% include \"inc.html\" -%}"), ("{% let 1 = p %}", "{% let y = p %}"), ("{% let (y, 1) = p %}", "{% let (y, _) = p %}"), ("{% let self = 1 %}", "{% let selfish = 1 %}"), ("{% let writer = 1 %}", "{% let writers = 1 %}"), ("{% for self in xs %}{% endfor %}", "{% for s in xs %}{% endfor %}"), ("{% let y %}{% let y = %}", "{% let y %}{% let y = 1 %}"),
    ("{{ p|safe(1) }}", "{{ p|safe }}"), ("{{ p|json(1, 2) }}", "{{ p|json }}"), ("{{ p|e(\"nope\") }}", "{{ p|e(\"none\") }}"), ("{{ p|e(\"html\", 1) }}", "{{ p|escape(\"html\") }}"), ("{{ p|e(1) }}", "{{ p|e }}"), ("{{ p|as_ref(1) }}", "{{ p|as_ref }}"), ("{{ p|deref(1) }}", "{{ p|deref }}"), ("{{ p|format }}", "{{ \"{}\"|format(p) }}"), ("{{ p|fmt }}", "{{ p|fmt(\"{:?}\") }}"), ("{{ p|fmt(1) }}", "{{ p|fmt(\"{}\") }}"), ("{{ p|fmt(\"{}\", 1) }}", "{{ p|fmt(\"{}\") }}"),
    ("{% fi p %}{% endif %}", "{% if p %}{% endif %}"), ("{% if %}1{% endif %}", "{% if p %}1{% endif %}"), ("{% if p q %}1{% endif %}", "{% if p && q %}1{% endif %}"), ("{% if p %}1", "{% if p %}1{% endif %}"), ("{% if p %}1{% endfor %}", "{% for y in p %}1{% endfor %}"), ("{% if let Some(y) %}1{% endif %}", "{% if let Some(y) = o %}1{% endif %}"),
    ("{% for y in %}{% endfor %}", "{% for y in xs %}{% endfor %}"), ("{% for y xs %}{% endfor %}", "{% for (y, _) in xs %}{% endfor %}"), ("{% for y in xs if %}{% endfor %}", "{% for y in xs if p %}{% endfor %}"), ("{% for y in xs %}1", "{% for y in xs %}1{% endfor %}"), ("{% for y in xs %}1{% else %}2{% else %}3{% endfor %}", "{% for y in xs %}1{% else %}2{% endfor %}"), ("{% for y in xs %}1{% else if p %}2{% endfor %}", "{% for y in xs %}1{% else %}{% if p %}2{% endif %}{% endfor %}"),
    ("{% for y in xs %}{{ loop.nope }}{% endfor %}", "{% for y in xs %}{{ loop.index }}{% endfor %}"), ("{% for y in xs %}{{ loop.cycle() }}{% endfor %}", "{% for y in xs %}{{ loop.cycle([1]) }}{% endfor %}"), ("{% for y in xs %}{{ loop.cycle([]) }}{% endfor %}", "{% for y in xs %}{{ loop.cycle(xs) }}{% endfor %}"), ("{% for y in xs %}{{ loop.cycle([1], 2) }}{% endfor %}", "{% for y in xs %}{{ loop.cycle([1, 2]) }}{% endfor %}"), ("{% for y in xs %}{{ loop.last() }}{% endfor %}", "{% for y in xs %}{{ loop.last }}{% endfor %}"),
    ("{% match p %}{% when true %}1", "{% match p %}{% when true %}1{% else %}{% endmatch %}"), ("{% match p %}{% endif %}", "{% match p %}{% when _ %}{% endmatch %}"), ("{% match %}{% when true %}1{% endmatch %}", "{% match p %}{% when true or false %}1{% endmatch %}"), ("{% match p %}{% when %}1{% endmatch %}", "{% match p %}{% when y %}1{% endmatch %}"), ("{% match p %}{% else %}1{% when true %}2{% endmatch %}", "{% match p %}{% when true %}2{% else %}1{% endmatch %}"), ("{% match p %}{% when true %}1{% else %}2{% else %}3{% endmatch %}", "{% match p %}{% when true %}1{% else %}2{% endmatch %}"),
    ("{% filter %}1{% endfilter %}", "{% filter upper %}1{% endfilter %}"), ("{% filter upper %}1", "{% filter upper|lower %}1{% endfilter %}"), ("{% filter upper %}1{% endif %}", "{% filter upper %}1{% endfilter -%}"), ("{% raw %}1", "{% raw %}1{% endraw %}"), ("{# 1", "{# 1 #}"), ("{# 1 {# 2 #}", "{# 1 {# 2 #} #}"),
    ("{{ p", "{{ p }}"), ("{{ p q }}", "{{ p + q }}"), ("{{ }}", "{{ () }}"), ("{{ p + }}", "{{ p + 1 }}"), ("{{ p| }}", "{{ p|upper }}"), ("{{ (p }}", "{{ (p) }}"), ("{{ [p }}", "{{ [p] }}"), ("{{ p. }}", "{{ p.q }}"), ("{{ p[ }}", "{{ p[1] }}"), ("{{ \"p }}", "{{ \"p\" }}"), ("{{ 'pq' }}", "{{ 'p' }}"), ("{{ p %}", "{{ p }}"), ("{% if p }}1{% endif %}", "{% if p %}1{% endif %}"), ("{% let y = %}", "{% set y = 1 %}"), ("{% %}", "{% let y %}"), ("{% nope %}", "{% let nope = 1 %}"), ("{% call %}", "{% call n() %}"), ("{% include %}", "{% include \"inc.html\" %}"),
];
fn lib() -> [(&'static str, &'static str); 2] { [("lib.html", LIB), ("inc.html", "inc {{ p }}")] }
fn go(wrong: bool, text: &str, label: &str) { let [l, i] = lib(); if flag() { decide(wrong, &[("t.html", text), l, i], "", label) } else { decide(wrong, &[("t.html", "{% import \"lib.html\" as lib %}<{% include \"sub.html\" %}>"), ("sub.html", text), l, i], "", label) } }
/// calls of macros, and tags: a mistake is reported wherever it stands
pub fn mis_calls() {
    let (wrong, right) = CALLS[pick(CALLS.len())];
    let bad = flag();
    let Some((text, _)) = placed(if bad { wrong } else { right }, 1 + tier()) else { return };
    go(bad, &[HEAD, &text].concat(), "calls");
}
/// the arguments of a call: any number of positional and named ones
pub fn mis_args() {
    const NAMES: [&str; 5] = ["c", "a", "b", "d", "nope"];
    let n = pick(bound(4, 5));
    let args: Vec<Option<usize>> = (0..pick(n + 2)).map(|_| { let k = pick(n + 2); if k == 0 { None } else if k == n + 1 { Some(4) } else { Some(k - 1) } }).collect();
    let mut call = String::new();
    for (i, a) in args.iter().enumerate() { if i > 0 { call.push_str(", ") } if let Some(k) = a { call.push_str(NAMES[*k]); call.push_str(["=", " = "][i % 2]) } call.push_str(["s", "1", "(p, 2).0", "a", "c"][i]) }
    let positional = args.iter().take_while(|a| a.is_none()).count();
    let named: Vec<usize> = args.iter().skip(positional).flatten().copied().collect();
    let right = args.len() == n && named.len() + positional == n && (positional..n).all(|k| named.iter().filter(|x| **x == k).count() == 1);
    let (l, path) = if flag() { ([("lib.html", String::new())], "") } else { ([("lib.html", ["{% macro t(", &NAMES[..n].join(", "), ") %}x{% endmacro %}"].concat())], "lib::") };
    let mut text = if path.is_empty() { ["{% macro t(", &NAMES[..n].join(", "), ") %}{% if p %}x{% endif %}{% endmacro %}"].concat() } else { "{% import \"lib.html\" as lib %}".to_string() };
    for x in ["{% call ", path, "t(", &call, ") %}"] { text.push_str(x) }
    decide(!right, &[("t.html", &text), (l[0].0, &l[0].1)], "", "arguments");
}
pub fn mis_tags() {
    let (wrong, right) = TAGS[pick(TAGS.len())];
    let bad = flag();
    let Some((text, _)) = placed(if bad { wrong } else { right }, 1 + tier()) else { return };
    go(bad, &[HEAD, &text].concat(), "tags");
}
/// tags which are allowed at some places alone
pub fn mis_places() {
    let k = pick(14);
    let x = ["{% break %}", "{% continue %}", "{% call super() %}", "{% macro k2() %}{% endmacro %}", "{% import \"lib.html\" as l2 %}", "{% extends \"base.html\" %}", "{% else %}", "{% when 1 %}", "{% endif %}", "{% endfor %}", "{% endmatch %}", "{% endblock %}", "{% endmacro %}", "{% endfilter %}"][k];
    let Some((text, at)) = placed(x, 1 + flag() as usize) else { return };
    let [top, _then, elif1, _elif, lp, lpelse, when, melse, block, filter, mac] = at;
    let n = at.iter().filter(|x| **x).count();
    // the end of what is around the mistake, or another part of it: another mistake or none at all
    if k >= 6 && !top { return }
    let right = match k { 0 | 1 => lp && !lpelse, 3 | 4 | 5 => top && n == 1, _ => false };
    // the else branch of a loop inside of another loop, and super where a block overrides another one
    if k < 2 && lp && lpelse { return }
    let _ = (elif1, when, melse, filter, block);
    // a block, and what may stand at the top level alone, inside of a macro
    if mac && block { return }
    let [l, i] = lib();
    decide(!right, &[("t.html", &[if right && k == 5 { "" } else { HEAD }, &text].concat()), ("base.html", "{% block a %}{% endblock %}"), l, i], "", "places");
}
/// templates which use what is not there, or themselves
pub fn mis_files() {
    let files: &[(bool, &[(&str, &str)], &str)] = &[
        (true, &[("t.html", "{% extends \"no.html\" %}")], ""), (true, &[("t.html", "{% import \"no.html\" as x %}")], ""), (true, &[("u.html", "x")], ""), (true, &[("t.html", "{% extends \"b.html\" %}"), ("b.html", "{% extends \"no.html\" %}")], ""), (true, &[("t.html", "{% extends \"b.html\" %}"), ("b.html", "{% include \"no.html\" %}")], ""),
        (true, &[("t.html", "{% extends \"b.html\" %}"), ("b.html", "{% if p %}")], ""), (true, &[("t.html", "{% include \"b.html\" %}"), ("b.html", "{% if p %}")], ""), (true, &[("t.html", "{% import \"b.html\" as b %}"), ("b.html", "{% if p %}")], ""), (true, &[("t.html", "{% import \"b.html\" as b %}{% call b::m() %}"), ("b.html", "{% macro m() %}{% call no() %}{% endmacro %}")], ""),
        (false, &[("t.html", "{% import \"b.html\" as b %}{% call b::m() %}"), ("b.html", "{% macro m() %}{% call no() %}{% endmacro %}{% macro no() %}{% endmacro %}")], ""),
        (true, &[("t.html", "{% extends \"t.html\" %}")], ""), (true, &[("t.html", "{% extends \"b.html\" %}"), ("b.html", "{% extends \"t.html\" %}")], ""), (true, &[("t.html", "{% include \"t.html\" %}")], ""), (true, &[("t.html", "{% include \"b.html\" %}"), ("b.html", "{% if p %}{% include \"t.html\" %}{% endif %}")], ""),
        (true, &[("t.html", "{% macro m() %}{% call m() %}{% endmacro %}{% call m() %}")], ""), (true, &[("t.html", "{% macro m() %}{% call n() %}{% endmacro %}{% macro n() %}{% if p %}{% call m() %}{% endif %}{% endmacro %}{% call n() %}")], ""),
        (true, &[("t.html", "{% extends \"b.html\" %}{% extends \"b.html\" %}"), ("b.html", "x")], ""), (false, &[("t.html", "{% extends \"b.html\" %}"), ("b.html", "x")], ""), (false, &[("t.html", "{% extends \"b.html\" %}{% block a %}{% call super() %}{% endblock %}"), ("b.html", "{% block a %}{% endblock %}")], ""),
        (true, &[("t.html", "{% extends \"b.html\" %}{% block a %}{% call super() %}{% endblock %}"), ("b.html", "{% block a %}{% call super() %}{% endblock %}")], ""), 
        (true, &[("t.html", "{% block a %}{% endblock %}")], ", block = \"b\""), (true, &[("t.html", "{% extends \"b.html\" %}{% block a %}{% endblock %}"), ("b.html", "{% block a %}{% endblock %}")], ", block = \"b\""), (false, &[("t.html", "{% extends \"b.html\" %}{% block a %}{% endblock %}"), ("b.html", "{% block b %}{% endblock %}{% block a %}{% endblock %}")], ", block = \"b\""), (true, &[("t.html", "a")], ", block = \"\""), (true, &[("t.html", "a{% include \"b.html\" %}"), ("b.html", "{% block b %}{% endblock %}")], ", block = \"b\""),
        (true, &[("t.html", "{%- extends \"b.html\" %}"), ("b.html", "x")], ""), (true, &[("t.html", "{% extends \"b.html\" -%}"), ("b.html", "x")], ""), (true, &[("t.html", "{% macro super() %}{% endmacro %}")], ""), (true, &[("t.html", "{% extends b.html %}"), ("b.html", "x")], ""), (true, &[("t.html", "{% import \"b.html\" %}"), ("b.html", "x")], ""), (true, &[("t.html", "{% macro m(1) %}{% endmacro %}")], ""), (true, &[("t.html", "{% macro m( %}{% endmacro %}")], ""), (false, &[("t.html", "{% macro m() %}{% endmacro %}")], ""),
    ];
    let (wrong, f, attrs) = files[pick(files.len())];
    decide(wrong, f, attrs, "files");
}
const SKELETONS: &[(&str, &str, &str, &str)] = &[
    ("{% block ab %}x{% endblock ", " %}", "", "ab"), ("{% if p %}{%- block ab -%}x{% endblock ", "%}{% endif %}", "", "ab"), ("{% block ab %}{% block c %}x{% endblock %}{%- endblock ", " %}", "", "ab"), ("{% macro ab() %}x{% endmacro ", " %}{% call ab() %}", "", "ab"), ("{% macro ab(x) %}x{%+ endmacro ", " -%}", "", "ab"),
    ("{% macro ab() %}x{% endmacro %}{% call ", "() %}", "", "ab"), ("{% import \"lib.html\" as ab %}{% call ", "::u() %}", "", "ab"), ("{% import \"lib.html\" as ab %}{% call ab::", "() %}", "", "u"), ("{% macro m(ab, c) %}x{% endmacro %}{% call m(c = 1, ", " = 2) %}", "", "ab"), ("{% macro m(ab) %}x{% endmacro %}{% call m(", " = 2) %}", "", "ab"), ("{% import \"lib.html\" as k %}{% call k::w(", " = 2) %}", "", "x"),
    ("{% include \"", ".html\" %}", "", "inc"), ("{% for x in xs %}{% if p %}{{ loop.", " }}{% endif %}{% endfor %}", "", "last"), ("{{ p|e(\"", "\") }}", "", "none"),
    ("{% block ab %}{% endblock %}", "", "block", "ab"), ("x", "", "escape", "none"), ("x", "", "syntax", "other"), ("x", "", "whitespace", "minimize"), ("x", "", "key", "ext"),
];
/// names which have to be those of something that is there: any letters where a name is expected
pub fn mis_names() {
    let k = pick(SKELETONS.len());
    let (before, after, attr, name) = SKELETONS[k];
    // one letter is another one, missing or too much
    let (mut s, at, kind) = (name.as_bytes().to_vec(), pick(name.len() + 1), pick(4));
    let letter = || if flag() { range(b'A', b'Z') } else { range(b'a', b'z') };
    match kind { 0 if at < name.len() => s[at] = letter(), 1 if at < name.len() && name.len() > 1 => { s.remove(at); } 2 => s.insert(at, letter()), 3 if tier() > 0 && at < name.len() => { s[at] = range(b'a', b'z'); s.insert(at, range(b'a', b'z')) } _ => return }
    let s = std::str::from_utf8(&s).unwrap().to_string();
    // other names that are right
    let right = match k { 12 => one_of(&s, &["last", "first", "index", "index0"]), 13 | 15 => one_of(&s, &["none", "html", "htm", "md", "svg", "txt", "typ", "xml", "yml", "j2", "jinja"]), 16 => one_of(&s, &["other", "default"]), 17 => one_of(&s, &["minimize", "preserve", "suppress"]), 18 => one_of(&s, &["ext", "print", "escape", "block", "syntax", "config", "whitespace"]), 7 => one_of(&s, &["u"]), _ => one_of(&s, &[name]) };
    // a macro that takes an argument, and attributes which have other values
    if k == 7 && one_of(&s, &["w"]) { return }
    if k == 18 && right { return }
    // the language's own words, and names of other things
    if (5..9).contains(&k) && one_of(&s, &["super", "self", "crate"]) { return }
    let toml = ("/askama.toml", "[[syntax]]\nname = \"other\"\nexpr_start = \"<:\"\nexpr_end = \":>\"\n");
    let [l, i] = lib();
    let text = if attr.is_empty() { [before, &s, after].concat() } else { before.to_string() };
    let attrs = match attr { "" => String::new(), "key" => [", ", &s, " = \"x\""].concat(), a => [", ", a, " = \"", &s, "\""].concat() };
    decide(!right, &[("t.html", &text), l, i, toml], &attrs, "names");
}
fn one_of(s: &str, of: &[&str]) -> bool { of.iter().any(|x| x.len() == s.len() && *x == s) }
/// the attribute itself
pub fn mis_attrs() {
    let items: &[(bool, &str)] = &[
        (true, "struct T;"), (true, "#[template] struct T;"), (true, "#[template()] struct T;"), (true, "#[template = \"t.html\"] struct T;"), (true, "#[template(\"t.html\")] struct T;"), (true, "#[template(path)] struct T;"), (true, "#[template(path(\"t.html\"))] struct T;"), (true, "#[template(path = 1)] struct T;"), (true, "#[template(path = t.html)] struct T;"), (true, "#[template(path = b\"t.html\")] struct T;"), (true, "#[template(a::path = \"t.html\")] struct T;"),
        (true, "#[template(path = \"t.html\", path = \"t.html\")] struct T;"), (true, "#[template(source = \"x\", ext = \"html\", path = \"t.html\")] struct T;"), (true, "#[template(path = \"t.html\", source = \"x\", ext = \"html\")] struct T;"), (true, "#[template(source = \"x\", source = \"x\", ext = \"html\")] struct T;"), (true, "#[template(source = \"x\")] struct T;"), (true, "#[template(ext = \"html\")] struct T;"), (true, "#[template(source = 1, ext = \"html\")] struct T;"), (true, "#[template(source = \"x\", ext = 'h')] struct T;"),
        (true, "#[template(path = \"t.html\")] #[template(path = \"t.html\")] struct T;"), (true, "#[template(path = \"t.html\", escape = 1)] struct T;"), (true, "#[template(path = \"t.html\", block = 1)] struct T;"), (true, "#[template(path = \"t.html\", print = \"no\")] struct T;"), (true, "#[template(path = \"t.html\", print = true)] struct T;"), (true, "#[template(path = \"t.html\", syntax = 1)] struct T;"), (true, "#[template(path = \"t.html\", config = 1)] struct T;"), (true, "#[template(path = \"t.html\", whitespace = 1)] struct T;"), (true, "#[template(path = \"t.html\", escaping = \"html\")] struct T;"),
        (true, "#[template(path = \"t.html\", config = \"no.toml\")] struct T;"), (true, "#[template(path = \"no.html\")] struct T;"), (true, "#[template(path = \"\")] struct T;"),
        (false, "#[template(path = \"t.html\")] struct T;"), (false, "#[template(path = \"t.html\",)] struct T;"), (false, "#[doc(hidden)] #[template(path = \"t.html\", print = \"none\")] #[derive(Clone)] struct T;"), (false, "#[template(source = \"x\", ext = \"html\", escape = \"none\")] struct T;"), (false, "#[template(ext = \"html\", source = \"x\")] enum T { A }"), (false, "#[template(config = \"askama.toml\", path = \"t.html\")] struct T;"),
    ];
    let (wrong, it) = items[pick(items.len())];
    let c = Case { item: it.to_string(), files: vec![("t.html".into(), b"x{{ s }}".to_vec()), ("/askama.toml".into(), vec![])], ext: None, mime: None };
    if wrong { c.rejected(&[LABEL, ": attribute"].concat()) } else { accepted(&c, &[RIGHT, ": attribute"].concat()) }
}
