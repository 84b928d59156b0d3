//! P26: what the attributes and the configuration file decide
use crate::*;
pub fn quoted(s: &[u8]) -> String { let mut o = String::from("\""); for c in std::str::from_utf8(s).unwrap().chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c => o.push(c) } } o.push('"'); o }
fn data() -> World { World::new(vec![("a", V::Int(3)), ("s", st("x<y & \"z'")), ("p", sel::boolean()), ("xs", list(vec![V::Int(1), V::Int(2)]))]) }
#[derive(Clone, Copy, PartialEq)]
enum Esc { Html, Text, Shout }
/// the extension which chooses the escaper, and the one the template is said to have
const NAMES: &[(&str, &str, Option<&str>)] = &[
    ("t.html", "html", Some("html")), ("t.htm", "htm", Some("htm")), ("t.svg", "svg", Some("svg")), ("t.xml", "xml", Some("xml")), ("t.md", "md", Some("md")), ("t.none", "none", Some("none")), ("t.txt", "txt", Some("txt")), ("t.typ", "typ", Some("typ")), ("t.yml", "yml", Some("yml")),
    ("t.j2", "j2", Some("j2")), ("t.jinja", "jinja", Some("jinja")), ("t.jinja2", "jinja2", Some("jinja2")), ("t.tex", "tex", Some("tex")), ("t.css", "css", Some("css")), ("t.csv", "csv", Some("csv")), ("t", "", None), (".html", "", None), ("t.txt.html", "html", Some("html")), ("t.html.txt", "txt", Some("txt")),
    ("t.txt.jinja", "jinja", Some("txt")), ("t.html.j2", "j2", Some("html")), ("d.html/t.txt", "txt", Some("txt")), ("d.txt/t", "", None), ("t.HTML", "HTML", Some("HTML")), ("t.html2", "html2", Some("html2")), ("t.xhtml", "xhtml", Some("xhtml")), ("t.css.jinja2", "jinja2", Some("css")), ("a.b.c.xml", "xml", Some("xml")),
];
const TOMLS: &[&str] = &["", "[[escaper]]\npath = \"::conf::Shout\"\nextensions = [\"tex\", \"html\", \"jinja\"]\n", "[[escaper]]\npath = \"::askama::Text\"\nextensions = [\"html\", \"tex\"]\n\n[[escaper]]\npath = \"::conf::Shout\"\nextensions = [\"html\", \"txt\", \"\", \"HTML\"]\n", "[[escaper]]\npath = \"::askama::Html\"\nextensions = [\"css\", \"md\", \"html2\"]\n[general]\nwhitespace = \"suppress\"\n"];
fn escaper(ext: &str, toml: usize) -> Option<Esc> {
    Some(match (toml, ext) {
        (1, "tex" | "html" | "jinja") => Esc::Shout,
        (2, "html" | "tex") => Esc::Text,
        (2, "txt" | "" | "HTML") => Esc::Shout,
        (3, "css" | "md" | "html2") => Esc::Html,
        (_, "html" | "htm" | "svg" | "xml" | "j2" | "jinja" | "jinja2") => Esc::Html,
        (_, "md" | "none" | "txt" | "typ" | "yml" | "") => Esc::Text,
        _ => return None,
    })
}
fn mime(ext: Option<&str>) -> Option<&'static str> {
    Some(match ext { None | Some("txt") => "text/plain; charset=utf-8", Some("html" | "htm") => "text/html; charset=utf-8", Some("css") => "text/css; charset=utf-8", Some("csv") => "text/csv; charset=utf-8", Some("svg") => "image/svg+xml", Some("xml") => "text/xml", _ => return None })
}
const OUT: &str = "the file name extension or the attributes decide how values are escaped and which type the output has";
/// how values are escaped, and what the template is said to contain
pub fn attr_output() {
    let (name, esc, ext) = NAMES[pick(NAMES.len())];
    let toml = pick(TOMLS.len());
    let attr = [None, Some("html"), Some("none"), Some("txt"), Some("tex"), Some(""), Some("jinja"), Some("nonsense")][pick(8)];
    let mut tpl = one(vec![tx("<"), ex("s"), tx(">"), t(K::Include("/templates/i.html")), t(K::For(P::N("x"), v("xs"), None)), ex("x"), ex("s"), t(K::EndFor)]);
    tpl.files.push(fl("/templates/i.html", vec![tx("&"), ex("s")]));
    let chosen = attr.unwrap_or(esc);
    let attrs = match attr { Some(a) => [", escape = ", &quoted(a.as_bytes())].concat(), None => String::new() };
    let source = flag() && ext == Some(esc);
    let label = OUT;
    let it = if source { ["#[template(source = ", &quoted(&print(&tpl.files[0].t)).replace("/templates/i.html", "i.html"), ", ext = \"", esc, "\"", &attrs, ")] struct T;"].concat() } else { ["#[template(path = \"", name, "\"", &attrs, ")] struct T;"].concat() };
    let toml_text = TOMLS[toml];
    let mut c = Case { item: it, files: vec![("/templates/i.html".into(), print(&tpl.files[1].t))], ext: Some(ext), mime: mime(ext) };
    if !source { c.files.push((name.to_string(), String::from_utf8(print(&tpl.files[0].t)).unwrap().replace("/templates/i.html", if name.contains('/') { "../i.html" } else { "i.html" }).into_bytes())) }
    let c = c.toml(if toml > 0 { Some(toml_text) } else { None });
    match escaper(chosen, toml) {
        None => c.rejected("an extension without escaper is accepted"),
        Some(e) => { tpl.text = e == Esc::Text; tpl.shout = e == Esc::Shout; if toml == 3 { tpl.ws = Ws::Suppress } run_case(&c, &tpl, data, label) }
    }
}
// ---------- delimiters
/// prints with other delimiters: block, expression, comment, each with its end
fn with(x: &[u8], d: &[Vec<u8>; 6]) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0;
    const D: [&[u8]; 6] = [b"{%", b"%}", b"{{", b"}}", b"{#", b"#}"];
    'n: while i < x.len() { for k in 0..6 { if x[i..].starts_with(D[k]) { o.extend_from_slice(&d[k]); i += 2; continue 'n } } o.push(x[i]); i += 1 }
    o
}
const KEYS: [&str; 6] = ["block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"];
fn shape() -> Tpl {
    one(vec![tx("a "), t(K::Comment("c")), ex("s"), t(K::If(v("p"))), tx("Y"), t(K::Else), tx("n"), t(K::EndIf), t(K::For(P::N("x"), v("xs"), None)), ex("x"), tx(","), t(K::EndFor), tx(" b"), t(K::Ex(E::I(7)))])
}
fn starts(a: &[u8], b: &[u8]) -> bool { a.len() >= b.len() && eq(&a[..b.len()], b) }
const DELIM: &str = "delimiters are accepted exactly if they are at least two characters without white space, no operators, and none begins like another";
/// one to three keys with symbolic delimiters, the other ones have their defaults
pub fn delimiters() {
    let mut d: [Vec<u8>; 6] = [b"{%".to_vec(), b"%}".to_vec(), b"{{".to_vec(), b"}}".to_vec(), b"{#".to_vec(), b"#}".to_vec()];
    let keys = [vec![0], vec![1], vec![2], vec![3], vec![4], vec![5], vec![0, 2], vec![2, 4], vec![0, 4]][pick(9)].clone();
    let len = pick(4);
    for &k in &keys { d[k] = (0..if k == keys[0] { len } else { 2 }).map(|_| one_of(if keys.len() > 1 { b"<[%{ =" } else { b"<[%{# =|.&!>}~" })).collect() }
    let mut toml = String::from("[[syntax]]\nname = \"q\"\n");
    for &k in &keys { toml.push_str(KEYS[k]); toml.push_str(" = "); toml.push('"'); toml.push_str(std::str::from_utf8(&d[k]).unwrap()); toml.push_str("\"\n") }
    let used = flag();
    let tpl = shape();
    let mut c = Case { item: item(if used { ", syntax = \"q\"" } else { "" }), files: vec![], ext: None, mime: None }.toml(Some(&toml));
    const OPS: [&[u8]; 10] = [b"||", b"&&", b"==", b"!=", b">=", b"<=", b"<<", b">>", b"..", b"..="];
    // decided without forking on every byte
    let mut bad = false;
    for x in &d { bad |= x.len() < 2; for &c in x { bad |= c == b' ' } for o in OPS { bad |= x.len() == o.len() && eq(x, o) } }
    for (i, j) in [(0, 2), (0, 4), (2, 4)] { bad |= starts(&d[i], &d[j]) | starts(&d[j], &d[i]) }
    if bad { c.files.push(("t.html".into(), vec![])); c.rejected(DELIM); return }
    if used {
        if d[5].windows(d[4].len()).any(|w| eq(w, &d[4])) || starts(&d[4], &d[5]) { reach(UNSPECIFIED); return }
        // an end which reads like an operator with its operand after the expression before it
        for x in [&d[1], &d[3]] { if b"[~.".contains(&x[0]) || x[1..].iter().any(|c| b"[!&".contains(c)) { reach(UNSPECIFIED); return } }
        c.files.push(("t.html".into(), with(&print(&tpl.files[0].t), &d)));
    } else { c.files.push(("t.html".into(), print(&tpl.files[0].t))) }
    run_case(&c, &tpl, data, DELIM)
}
const SYN: &str = "a template is read with the delimiters its syntax attribute or the default syntax names";
/// which syntax is used, and which configurations of them are rejected
pub fn syntaxes() {
    let foo: [Vec<u8>; 6] = [b"<%".to_vec(), b"%>".to_vec(), b"<<<".to_vec(), b">>>".to_vec(), b"<#".to_vec(), b"#}".to_vec()];
    let bar: [Vec<u8>; 6] = [b"{%".to_vec(), b"%}".to_vec(), b"$(".to_vec(), b")$".to_vec(), b"\xc2\xab\xc2\xb6".to_vec(), b"\xc2\xb6\xc2\xbb".to_vec()];
    let none: [Vec<u8>; 6] = [b"{%".to_vec(), b"%}".to_vec(), b"{{".to_vec(), b"}}".to_vec(), b"{#".to_vec(), b"#}".to_vec()];
    let decl = |n: &str, d: &[Vec<u8>; 6]| { let mut s = ["[[syntax]]\nname = \"", n, "\"\n"].concat(); for k in 0..6 { if d[k] != none[k] { s.push_str(KEYS[k]); s.push_str(" = \""); s.push_str(std::str::from_utf8(&d[k]).unwrap()); s.push_str("\"\n") } } s };
    let default = [None, Some("foo"), Some("bar"), Some("default"), Some("other")][pick(5)];
    let declared = pick(6);
    let mut toml = match default { Some(n) => ["[general]\ndefault_syntax = \"", n, "\"\n"].concat(), None => String::new() };
    toml.push_str(&match declared { 0 => [decl("foo", &foo), decl("bar", &bar)].concat(), 1 => [decl("bar", &bar), decl("foo", &foo)].concat(), 2 => decl("foo", &foo), 3 => String::new(), 4 => [decl("foo", &foo), decl("foo", &bar)].concat(), _ => [decl("bar", &bar), decl("default", &foo)].concat() });
    let attr = [None, Some("foo"), Some("bar"), Some("default"), Some("nope")][pick(5)];
    let known = |n: &str| match n { "foo" => matches!(declared, 0 | 1 | 2), "bar" => matches!(declared, 0 | 1), "default" => true, _ => false };
    let mut tpl = shape();
    tpl.files[0].t.insert(2, t(K::Include("i.html")));
    tpl.files.push(fl("i.html", vec![tx("I"), ex("s"), t(K::Comment("k")), t(K::If(v("p"))), tx("I"), t(K::EndIf)]));
    let a = match attr { Some(a) => [", syntax = \"", a, "\""].concat(), None => String::new() };
    let used = attr.or(default).unwrap_or("default");
    let d = match used { "foo" => &foo, "bar" => &bar, _ => &none };
    let c = Case { item: item(&a), files: tpl.files.iter().map(|f| (f.path.to_string(), with(&print(&f.t), d))).collect(), ext: None, mime: None }.toml(Some(&toml));
    if declared >= 4 || !known(default.unwrap_or("default")) || !known(used) { c.rejected("an unknown or doubly defined syntax is accepted"); return }
    run_case(&c, &tpl, data, SYN)
}
const DIRS: &str = "a template is the first file of its name in the directories configured, and what it includes is looked for next to it first";
/// which files are used
pub fn config_dirs() {
    const D: [&str; 4] = ["templates", "b", "b/c", ""];
    let dirs: &[&str] = [&["templates"] as &[&str], &["b", "templates"], &["templates", "b"], &["b/c", "b"], &["b", "b/c", "templates"], &[""], &[]][pick(7)];
    let given = flag();
    let place = pick(3);
    let mut toml = String::new();
    if given { toml.push_str("[general]\ndirs = ["); for (i, d) in dirs.iter().enumerate() { if i > 0 { toml.push_str(", ") } toml.push('"'); toml.push_str(d); toml.push('"') } toml.push_str("]\n") }
    let dirs: &[&str] = if given { dirs } else { &["templates"] };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let (mut t_in, mut i_in) = ([false; 4], [false; 4]);
    let full = |d: &str, n: &str| if d.is_empty() { ["/", n].concat() } else { ["/", d, "/", n].concat() };
    let user = pick(3);
    let text = |k: usize| -> Vec<Tok> { let n = ["templates", "b", "bc", "root"][k]; match user { 0 => vec![tx(n), t(K::Include("i.html")), ex("a")], 1 => vec![t(K::Import("i.html", "q")), tx(n), t(K::Call(Some("q"), "k", vec![v("a")]))], _ => vec![t(K::Extends("i.html")), t(K::Block("u")), tx(n), t(K::EndBlock)] } };
    let inner = |k: usize| -> Vec<Tok> { let n = ["T", "B", "C", "R"][k]; match user { 0 => vec![tx(n), ex("s")], 1 => vec![t(K::Macro("k", vec!["x"])), tx(n), ex("x"), t(K::EndMacro)], _ => vec![tx(n), t(K::Block("u")), t(K::EndBlock), ex("a")] } };
    let two = pick(7); // where the template is: one or two of the directories
    for k in [&[0usize] as &[usize], &[1], &[2], &[3], &[0, 1], &[1, 2], &[0, 3]][two] { t_in[*k] = true; files.push((full(D[*k], "t.html"), print(&text(*k)))) }
    let inn = pick(7);
    for k in [&[0usize] as &[usize], &[1], &[2], &[3], &[0, 1], &[0, 2], &[1, 3]][inn] { i_in[*k] = true; files.push((full(D[*k], "i.html"), print(&inner(*k)))) }
    // where the configuration is
    let attr = match place { 0 => { files.push(("/askama.toml".into(), toml.clone().into_bytes())); "" } 1 => { files.push(("/askama.toml".into(), b"[general]\ndirs = [\"nowhere\"]\n".to_vec())); files.push(("/b/conf.toml".into(), toml.clone().into_bytes())); ", config = \"b/conf.toml\"" } _ => { files.push(("/askama.toml".into(), toml.into_bytes())); ", config = \"b/missing.toml\"" } };
    let dir = |d: &str| D.iter().position(|x| *x == d).unwrap();
    let c = Case { item: item(attr), files, ext: Some(Some("html")), mime: None };
    let found = dirs.iter().map(|d| dir(d)).find(|d| t_in[*d]);
    let inner_at = found.and_then(|f| if i_in[f] { Some(f) } else { dirs.iter().map(|d| dir(d)).find(|d| i_in[*d]) });
    match (place, found, inner_at) { (0 | 1, Some(f), Some(i)) => run_case(&c, &many(vec![fl("t.html", text(f)), fl("i.html", inner(i))]), data, DIRS), _ => c.rejected("a template or configuration file which is not there is accepted") }
}
const WSP: &str = "the whitespace attribute takes precedence over the configuration file";
/// the defaults of whitespace control
pub fn config_ws() {
    const W: [(&str, Ws); 3] = ws::WS;
    let cf = pick(5); let at = pick(5);
    let mut tpl = one(vec![tx("a \n "), t(K::If(v("p"))), tx(" b\n "), t(K::EndIf), tx("\n"), ex("a"), tx(" c "), t(K::Include("i.html")), tx("  d")]);
    tpl.files.push(fl("i.html", vec![tx("\ti\n"), t(K::Comment("c")), tx(" j ")]));
    let toml = match cf { 0 => None, 4 => Some("[general]\nwhitespace = \"nope\"\n".to_string()), k => Some(["[general]\nwhitespace = \"", W[k - 1].0, "\"\n"].concat()) };
    let attr = match at { 0 => String::new(), 4 => ", whitespace = \"nope\"".into(), k => [", whitespace = \"", W[k - 1].0, "\""].concat() };
    for f in &mut tpl.files { for t in &mut f.t { if !matches!(t.k, K::Text(_)) { t.l = b" -+~"[pick(2)]; t.r = b" -"[(t.l == b'-') as usize] } } }
    let c = Case::new(&tpl, item(&attr)).toml(toml.as_deref());
    if cf == 4 || at == 4 { c.rejected("an unknown whitespace setting is accepted"); return }
    tpl.ws = if at > 0 { W[at - 1].1 } else if cf > 0 { W[cf - 1].1 } else { Ws::Preserve };
    run_case(&c, &tpl, data, WSP)
}
