// P36: deriving is deterministic. The crates under test use `shim` as their standard library, in which the order
// of iteration of every hash map and set is symbolic.
use vf::*;
const SAME: &str = "what the derive macro makes of a template depends on the order of a hash map";
const HISTORY: &str = "what the derive macro makes of a template depends on what it was used for before";
type Files = Vec<(String, String)>;
fn put(files: &[(String, String)]) { env("CARGO_MANIFEST_DIR", "/vfs"); for (p, x) in files { debug(p.as_bytes()); debug(x.as_bytes()); file(&if p.starts_with('/') { ["/vfs", p].concat() } else { ["/vfs/templates/", p].concat() }, x.as_bytes()) } allow_panic(false) }
fn derive(item: &str) -> (bool, String) { match derive::verif::derive(item) { Ok(c) => (true, c), Err(e) => (false, e) } }
fn same(a: &(bool, String), b: &(bool, String), label: &str) { debug(a.1.as_bytes()); debug(b.1.as_bytes()); check(a.0 == b.0 && eq(a.1.as_bytes(), b.1.as_bytes()), label) }
fn fs(x: &[(&str, &str)]) -> Files { x.iter().map(|(p, t)| (p.to_string(), t.to_string())).collect() }
fn item(attrs: &str) -> String { ["#[template(path = \"t.html\"", attrs, ")] struct T<'a, X: Copy, Y> where Y: Clone { a: &'a str, b: X, c: Y }"].concat() }
const TOML: &str = "[general]\ndirs = [\"templates\", \"other\"]\n[[syntax]]\nname = \"one\"\nexpr_start = \"<:\"\nexpr_end = \":>\"\n[[syntax]]\nname = \"two\"\nblock_start = \"<!\"\nblock_end = \"!>\"\n[[escaper]]\npath = \"a::A\"\nextensions = [\"html\", \"x\"]\n[[escaper]]\npath = \"a::B\"\nextensions = [\"y\", \"html\", \"z\"]\n";
/// parts of templates
const PARTS: &[&str] = &[
    "{{ a }}{{ b }}{{ a }}", "{% call m(y = a, x = b, z = 1) %}{% call n() %}{% call m(c, b, a) %}", "{% let u = a %}{% let (v, w) = b %}{{ u }}{{ v }}{{ w }}", "{% for x in c %}{% let y = x %}{{ x }}{{ y }}{{ loop.index }}{% endfor %}{{ y }}", "{% match a %}{% when Some(x) %}{{ x }}{% when E::S { f, g: h } %}{{ f }}{{ h }}{% else %}{{ x }}{% endmatch %}",
    "{% if let Some(x) = a %}{{ x }}{% else if b %}{{ x }}{% else %}{{ c }}{% endif %}", "{% filter upper|lower %}{{ a }}{% filter trim %}{{ b }}{% endfilter %}{% endfilter %}", "{% call l::w(a) %}{% call k::w(b) %}{% include \"i.html\" %}", "{% include \"i.html\" %}{% include \"j.html\" %}", "{{ a|e(\"html\") }}{{ a|e(\"none\") }}{{ a|e(\"y\") }}{{ a|json }}{{ a|own(b, c) }}",
    "{% block d %}{{ a }}{% block e %}{{ b }}{% endblock %}{% endblock %}{% block f %}{% endblock %}", "{{ a.x.y(b, c)[1]? }}{{ m!(a, b) }}{{ -b + 1 * 2 }}",
];
const ROOTS: &[(&str, &str)] = &[
    ("{% import \"l.html\" as l %}{% import \"k.html\" as k %}{% macro m(x, y, z) %}{{ x }}{{ y }}{{ z }}{{ x }}{% let q = x %}{{ q }}{% endmacro %}{% macro n() %}n{% endmacro %}", ""),
    ("{% extends \"base.html\" %}{% import \"l.html\" as l %}{% import \"k.html\" as k %}{% macro m(x, y, z) %}{{ x }}{{ y }}{{ z }}{% endmacro %}{% macro n() %}n{% endmacro %}{% block title %}t{% endblock %}{% block main %}{% call super() %}", "{% endblock %}{% block foot %}{% endblock %}"),
];
fn around() -> [(&'static str, &'static str); 6] { [("l.html", "{% macro w(x) %}l{{ x }}{% endmacro %}{% macro u() %}{% endmacro %}"), ("k.html", "{% macro w(x) %}k{{ x }}{% endmacro %}"), ("i.html", "{% let u = a %}i{{ u }}"), ("j.html", "j{{ b }}{% include \"i.html\" %}"), ("base.html", "{% block title %}{% endblock %}<{% block main %}{{ a }}{% block inner %}{{ b }}{% endblock %}{% endblock %}>{% block foot %}{{ c }}{% endblock %}"), ("other/o.html", "o")] }
fn template() -> (String, Files) {
    let (head, tail) = ROOTS[pick(ROOTS.len())];
    let (j, k) = (pick(PARTS.len()), pick(bound(3, PARTS.len())));
    let text = [head, PARTS[j], PARTS[(j + 1 + k) % PARTS.len()], tail].concat();
    let mut f = fs(&around()); f.push(("t.html".into(), text));
    if flag() { f.push(("/askama.toml".into(), TOML.into())) }
    (item(""), f)
}
/// templates out of up to six files
pub fn det_code() {
    let (item, files) = template();
    put(&files);
    let one = derive(&item);
    shim::any_order(bound(1, 2));
    let two = derive(&item);
    same(&one, &two, SAME);
    reach(if one.0 { "accepted" } else { "rejected" });
    if shim::order_used() { reach("hash maps were iterated") }
}
/// templates with more than one mistake: which one is reported
pub fn det_errors() {
    const BAD: &[&str] = &["{% if a %}{% extends \"l.html\" %}{% endif %}", "{% extends \"l.html\" %}{% extends \"k.html\" %}", "{% if a %}{% macro z() %}{% endmacro %}{% endif %}", "{% for x in a %}{% import \"l.html\" as l %}{% endfor %}", "{% import \"no.html\" as x %}", "{% if", "{% call no() %}", "{% call l::no() %}", "{% let 1 = a %}", "{{ a|e(\"no\") }}{{ a|json(1, 2) }}", "{% include \"no.html\" %}", "{% match a %}{% when 1 %}{% if b %}{% block x %}{% macro y() %}{% endmacro %}{% endblock %}{% endif %}{% endmatch %}",
        "{% macro m(p, q, r) %}{% endmacro %}{% call m(1, x = 2, y = 3) %}", "{% macro m(p, q, r) %}{% endmacro %}{% call m(r = 1, q = 2, 3) %}{% call m(r = 1, q = 2) %}", "{% block g %}{% call no() %}{% endblock %}{% block h %}{% let 1 = a %}{% endblock %}{% block k %}{{ a|json(1, 2) }}{% endblock %}", "{% macro g() %}{% call no() %}{% endmacro %}{% macro h() %}{% let 1 = a %}{% endmacro %}{% call h() %}{% call g() %}{% block g %}{% endblock %}{% block g %}{% endblock %}"];
    let use_ = pick(3);
    let (x, y) = (pick(BAD.len()), pick(BAD.len()));
    let top = ["{% include \"x.html\" %}{% include \"y.html\" %}", "{% import \"x.html\" as x %}{% import \"y.html\" as y %}", "{% extends \"x.html\" %}{% block x %}{% include \"y.html\" %}{% endblock %}"][use_];
    let mut f = fs(&around()); f.push(("t.html".into(), top.into())); f.push(("x.html".into(), BAD[x].into())); f.push(("y.html".into(), BAD[y].into()));
    put(&f);
    let item = item("");
    let one = derive(&item);
    shim::any_order(bound(1, 2));
    let two = derive(&item);
    same(&one, &two, SAME);
    reach(if one.0 { "accepted" } else { "rejected" });
    if shim::order_used() { reach("hash maps were iterated") }
}
/// attributes and configurations: escapers and syntaxes that contradict each other
pub fn det_config() {
    let path = pick(8);
    let item = match path { 0 => item(""), 1 => item(", escape = \"y\""), 2 => item(", syntax = \"two\""), 3 => item(", syntax = \"no\", escape = \"nope\", block = \"neither\", print = \"never\""), 4 => item(", one = 1, two = 2, three = 3"), 5 => item(", config = \"a.toml\", config = \"b.toml\", whitespace = 1"), 6 => "#[template(source = \"{{ a\", ext = \"x\", path = \"t.html\")] #[template(more = 1)] struct T;".to_string(), _ => "#[template(source = \"{{ a|e(\\\"z\\\") }}{{ a }}\", ext = \"x\", whitespace = \"minimize\")] struct T { a: i32, b: i32, c: i32 }".to_string() };
    let toml = match pick(7) { 0 => TOML.to_string(), 1 => [TOML, "[[escaper]]\npath = \"a::C\"\nextensions = [\"y\", \"x\", \"html\", \"z\"]\n"].concat(), 2 => [TOML, "[[syntax]]\nname = \"two\"\n"].concat(), 3 => [TOML, "[[syntax]]\nname = \"six\"\nexpr_start = \"a\"\n[[syntax]]\nname = \"seven\"\nexpr_start = \"{%\"\n"].concat(), 4 => [TOML, "[[syntax]]\nname = \"one\"\n[[syntax]]\nname = \"two\"\n"].concat(), 5 => "[[escaper]]\nname = 1\n[[syntax]]\nx = 1\ny = 2\n[general]\nz = 1\nw = 1\n".to_string(), _ => [TOML, "[[escaper]]\npath = \"a::D\"\nextensions = []\n[more]\nx = 1\n"].concat() };
    let mut f = fs(&around()); f.push(("t.html".into(), ["{{ a|e(\"x\") }}<!let u = b!>{{ a }}", "{{ a|e(\"z\") }}{{ a|escape(\"y\") }}"][pick(2)].into())); f.push(("/askama.toml".into(), toml));
    put(&f);
    let one = derive(&item);
    shim::any_order(bound(1, 2));
    let two = derive(&item);
    same(&one, &two, SAME);
    reach(if one.0 { "accepted" } else { "rejected" });
}
/// other templates, and the same one with other files, before
pub fn det_history() {
    let (it, files) = template();
    put(&files);
    let one = derive(&it);
    // before: another template, a mistake, other contents of the files, another configuration
    match pick(7) {
        0 => { let _ = derive("#[template(path = \"i.html\")] struct U { a: u8 }"); }
        1 => { let _ = derive("#[template(path = \"t.html\", escape = \"none\", whitespace = \"suppress\", block = \"d\")] struct T { x: u8 }"); }
        2 => { let _ = derive("#[template(source = \"{% for x in a %}{% if b %}{{ x\", ext = \"txt\")] struct T { a: u8 }"); }
        3 => { put(&fs(&[("t.html", "{% include \"i.html\" %}other"), ("i.html", "{{ other }}"), ("l.html", "{% macro w(x, y) %}{% endmacro %}"), ("base.html", "{% block zz %}{% endblock %}")])); let _ = derive(&it); }
        4 => { put(&fs(&[("/askama.toml", "[general]\nwhitespace = \"suppress\"\n[[syntax]]\nname = \"two\"\nexpr_start = \"<?\"\n[[escaper]]\npath = \"z::Z\"\nextensions = [\"html\"]\n")])); let _ = derive(&it); put(&fs(&[("/askama.toml", "")])); }
        5 => { put(&fs(&[("t.html", "{% if a %}"), ("i.html", "{% if b")])); let _ = derive(&it); let _ = derive("#[template(path = \"i.html\")] struct T<X> { a: X }"); }
        _ => { let _ = derive("struct X;"); let _ = derive("#[template(path = \"no.html\", config = \"no.toml\")] struct T;"); let _ = derive("enum E { A }"); }
    }
    put(&files);
    if !files.iter().any(|f| f.0 == "/askama.toml") { put(&fs(&[("/askama.toml", "")])); }
    let two = derive(&it);
    same(&one, &two, HISTORY);
    // and the first use of files which were others when another template used them
    reach(if one.0 { "accepted" } else { "rejected" });
}
vf::harnesses!(det_code, det_errors, det_config, det_history);
