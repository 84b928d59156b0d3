//! P29: the generated code depends on the template files
use crate::*;
const DEP: &str = "the compiler is told of every template file the output depends on, so that a change of any of them recompiles the template";
/// the files named by include_bytes! or include_str! in the code
fn told(code: &str) -> Vec<&str> {
    let mut o = vec![];
    for n in ["include_bytes", "include_str"] {
        let mut rest = code;
        while let Some(i) = rest.find(n) {
            rest = &rest[i + n.len()..];
            let Some(j) = rest.find('"') else { break };
            if !rest[..j].chars().all(|c| c.is_whitespace() || c == '!' || c == '(') { continue }
            let Some(k) = rest[j + 1..].find('"') else { break };
            o.push(&rest[j + 1..j + 1 + k]);
            rest = &rest[j + 2 + k..];
        }
    }
    o
}
fn told_all(item: &str, files: &[(&str, String)], used: &[&str]) {
    env("CARGO_MANIFEST_DIR", "/vfs");
    allow_panic(false);
    for (p, x) in files { debug(p.as_bytes()); debug(x.as_bytes()); file(&at(p), x.as_bytes()) }
    debug(item.as_bytes());
    match derive::verif::derive(item) {
        Err(e) => { emits(&e); check(false, "a template which should be accepted is rejected") }
        Ok(code) => {
            debug(code.as_bytes());
            let t = told(&code);
            for u in used { check(t.iter().any(|x| x.ends_with(&["/templates/", u].concat())), DEP) }
            reach("used");
        }
    }
}
/// `i` in a construct
fn place(k: usize, i: &str) -> String {
    match k {
        0 => i.to_string(),
        1 => ["{% if p %}a{% else if q %}", i, "{% else %}b{% endif %}"].concat(),
        2 => ["{% if p %}a{% else %}", i, "{% endif %}"].concat(),
        3 => ["{% for x in xs %}{% if x %}", i, "{% endif %}{% endfor %}"].concat(),
        4 => ["{% for x in xs %}{% else %}", i, "{% endfor %}"].concat(),
        5 => ["{% match o %}{% when Some(x) %}a{% when None %}", i, "{% endmatch %}"].concat(),
        6 => ["{% match o %}{% when Some(x) %}a{% else %}", i, "{% endmatch %}"].concat(),
        7 => ["{% filter upper %}a", i, "{% endfilter %}"].concat(),
        8 => ["{% block w %}", i, "{% endblock %}"].concat(),
        9 => ["{% macro m(x) %}", i, "{% endmacro %}{% call m(1) %}"].concat(),
        10 => ["{% call m(1) %}{% if p %}{% macro m(x) %}{% endmacro %}{% endif %}{% macro m(x) %}{% filter upper %}", i, "{% endfilter %}{% endmacro %}"].concat(),
        11 => ["{% let z = a %}{% block w %}{% for x in xs %}{% block v %}", i, "{% endblock %}{% endfor %}{% endblock %}"].concat(),
        _ => ["{% if let Some(x) = o %}", i, "{% endif %}"].concat(),
    }
}
const PLACES: usize = 13;
/// a file used by a file used by the template
pub fn dependencies() {
    let k1 = pick(PLACES);
    if k1 == 10 { return }
    let how = pick(4);
    let (dir, rel) = [("", ""), ("d/", ""), ("d/", "d/"), ("", "d/")][pick(4)];
    let second = [rel, "j.html"].concat();
    let i = [dir, "i.html"].concat();
    // where the second file is found: next to the first, or in the directory of the templates
    let j = if dir == "d/" && rel == "" { "d/j.html".to_string() } else { second.clone() };
    let k2 = if how == 0 || how == 3 { let k = pick(bound(PLACES, PLACES)); if k == 10 { return } k } else { 0 };
    let (inner, content) = match how {
        0 => (place(k2, &["{% include \"", &second, "\" %}"].concat()), "J".to_string()),
        1 => (["{% import \"", &second, "\" as q %}{% call q::m(1) %}"].concat(), "{% macro m(x) %}J{{ x }}{% endmacro %}".to_string()),
        2 => (["{% extends \"", &second, "\" %}{% block u %}i{% endblock %}"].concat(), "J{% block u %}{% endblock %}".to_string()),
        _ => (place(k2, &["{% include \"", &second, "\" %}"].concat()), "{% extends \"k.html\" %}{% block u %}{% endblock %}".to_string()),
    };
    let outer = match pick(3) { 0 => place(k1, &["{% include \"", &i, "\" %}"].concat()), 1 if k1 == 0 && how != 1 => ["{% extends \"", &i, "\" %}{% block none %}x{% endblock %}"].concat(), 2 if k1 == 0 && how != 2 => ["{% import \"", &i, "\" as z %}{% call z::k() %}"].concat(), _ => return };
    let inner = if outer.starts_with("{% import") { if how == 1 { inner.replace("{% call q::m(1) %}", "{% macro k() %}{% call q::m(1) %}{% endmacro %}") } else if k2 >= 8 && k2 != 12 { return } else { ["{% macro k() %}", &inner, "{% endmacro %}"].concat() } } else { inner };
    let k = if dir == "d/" || rel == "d/" { "d/k.html" } else { "k.html" };
    let mut files = vec![(i.as_str(), inner), (j.as_str(), content)];
    let mut used = vec![i.as_str(), j.as_str()];
    if how == 3 { files.push((k, "K{% block u %}{% endblock %}".to_string())); used.push(k) }
    let fields = " struct T { a: u8 }";
    if flag() {
        files.push(("t.html", outer)); used.push("t.html");
        told_all(&["#[template(path = \"t.html\")]", fields].concat(), &files, &used);
    } else {
        told_all(&["#[template(source = r#\"", &outer, "\"#, ext = \"html\")]", fields].concat(), &files, &used);
    }
}
/// a block fragment depends on what the block uses
pub fn dependencies_fragment() {
    let k = pick(PLACES);
    if k >= 8 && k != 12 { return }
    let how = pick(3);
    let used_in = place(k, "{% include \"i.html\" %}");
    let (t, extra): (String, Vec<(&str, String)>) = match how {
        0 => (["a{% block u %}", &used_in, "{% endblock %}b"].concat(), vec![]),
        1 => ("{% extends \"b.html\" %}{% block v %}{% endblock %}".to_string(), vec![("b.html", ["B{% block u %}", &used_in, "{% endblock %}"].concat())]),
        _ => ("{% extends \"b.html\" %}{% block u %}{% call super() %}{% endblock %}".to_string(), vec![("b.html", ["B{% block u %}", &used_in, "{% endblock %}"].concat())]),
    };
    let mut files = vec![("t.html", t), ("i.html", "{% import \"j.html\" as q %}{% call q::m(1) %}".to_string()), ("j.html", "{% macro m(x) %}J{{ x }}{% endmacro %}".to_string())];
    files.extend(extra);
    let used: Vec<&str> = files.iter().map(|x| x.0).collect();
    told_all("#[template(path = \"t.html\", block = \"u\")] struct T { a: u8 }", &files, &used);
}
