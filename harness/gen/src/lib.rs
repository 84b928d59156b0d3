mod mr;
mod tp;
mod ws; mod sel; mod scope; mod mac; mod inh; mod inc; mod xp; mod kw; mod lp; mod cfg; mod tot; mod dep; mod item; mod mis; mod hyg;
use mr::{World, V};
use std::rc::Rc;
use tp::*;
use vf::*;

pub const DIR: &str = "/vfs/templates/";
pub fn obj(f: Vec<(&'static str, V)>) -> V { V::Obj(Rc::new(f)) }
pub fn list(v: Vec<V>) -> V { V::List(Rc::new(v)) }
pub fn st(s: &str) -> V { mr::vstr(s.as_bytes()) }
pub fn some(x: V) -> V { V::Enum("Some", Rc::new(vec![x])) }
pub fn none() -> V { V::Enum("None", Rc::new(vec![])) }
/// the data most templates are rendered with
pub fn world() -> World {
    World::new(vec![("a", V::Int(3)), ("b", V::Int(5)), ("c", V::Int(7)), ("p", V::Bool(true)), ("q", V::Bool(false)), ("s", st("x<y")), ("t", st("Tt")), ("xs", list(vec![V::Int(1), V::Int(2)])), ("ys", list(vec![V::Int(8), V::Int(9), V::Int(4)])), ("zs", list(vec![])), ("o", some(V::Int(6))), ("m", none()), ("n", obj(vec![("x", V::Int(11)), ("y", st("in"))]))])
}
/// where a file of the template is: relative to the directory of the templates, or to the crate if it starts with '/'
pub fn at(path: &str) -> String { if path.starts_with('/') { ["/vfs", path].concat() } else { [DIR, path].concat() } }
pub fn item(attrs: &str) -> String { ["#[template(path = \"t.html\"", attrs, ")] struct T;"].concat() }
/// one use of the derive macro: the item, and the files around it (see `at`)
pub struct Case { pub item: String, pub files: Vec<(String, Vec<u8>)>, pub ext: Option<Option<&'static str>>, pub mime: Option<&'static str> }
impl Case {
    pub fn new(t: &Tpl, item: String) -> Case { Case { item, files: t.files.iter().map(|f| (f.path.to_string(), print(&f.t))).collect(), ext: None, mime: None } }
    pub fn toml(mut self, toml: Option<&str>) -> Case { if let Some(x) = toml { self.files.push(("/askama.toml".into(), x.as_bytes().to_vec())) } self }
    pub fn put(&self) { env("CARGO_MANIFEST_DIR", "/vfs"); for (p, x) in &self.files { debug(p.as_bytes()); debug(x); file(&at(p), x) } allow_panic(false); debug(self.item.as_bytes()); native_case(self) }
    pub fn rejected(&self, label: &str) { self.put(); let r = derive::verif::derive(&self.item); if let Ok(c) = &r { debug(c.as_bytes()) } check(r.is_err(), label); reach("rejected") }
}
/// derives the template and compares the output of the generated code with the reference rendering
pub fn decide(t: &Tpl, toml: Option<&str>, attrs: &str, w: impl Fn() -> World, label: &str) { if t.files.is_empty() { return } run_case(&Case::new(t, item(attrs)).toml(toml), t, w, label) }
/// the value of an associated constant in the generated code, without white space around its tokens
fn konst(code: &str, n: &str) -> String {
    let Some(i) = code.find(n) else { return String::new() };
    let Some(j) = code[i..].find('=') else { return String::new() };
    let (mut o, mut q) = (String::new(), false);
    for c in code[i + j + 1..].chars() { if c == ';' && !q { break } if c == '"' { q = !q } if q || !c.is_whitespace() { o.push(c) } }
    o
}
pub fn run_case(c: &Case, t: &Tpl, w: impl Fn() -> World, label: &str) {
    c.put();
    match derive::verif::derive(&c.item) {
        Err(e) => { debug(e.as_bytes()); emits(&e); native_expect(&t_ref(t, &w())); check(false, &["a template which should be accepted is rejected: ", label].concat()) }
        Ok(code) => {
            debug(code.as_bytes());
            native_code(&code);
            let w = w();
            let r = Rf::new(t, &w).render();
            native_world(&w);
            let Ok((want, want_ok)) = r else { let Err(e) = r else { return }; if e == UNSPECIFIED { reach(UNSPECIFIED); return } inconclusive(e) };
            native_expect(&Some((want.clone(), want_ok)));
            if let Some(e) = c.ext { check_str(&konst(&code, "const EXTENSION"), &match e { None => "None".to_string(), Some(e) => ["Some(\"", e, "\")"].concat() }, label) }
            if let Some(m) = c.mime { check_str(&konst(&code, "const MIME_TYPE"), &["\"", m, "\""].concat(), label) }
            *w.counter.borrow_mut() = 0;
            let c = match mr::parse(&code) { Ok(c) => c, Err(e) => inconclusive(e) };
            match mr::run(&c, &w) {
                Err(e) => inconclusive(e),
                Ok((got, ok)) => {
                    debug(&got); debug(&want);
                    check(ok == want_ok, label);
                    check_eq(&got, &want, label);
                    reach("rendered");
                }
            }
        }
    }
}
fn t_ref(t: &Tpl, w: &World) -> Option<(Vec<u8>, bool)> { native_world(w); Rf::new(t, w).render().ok() }

// ---------- natively: the case, so that it can be compiled and rendered for real
#[cfg(feature = "native")]
mod case {
    use super::*;
    use std::io::Write;
    pub fn line(kind: &str, name: &str, data: &[u8]) {
        let Ok(p) = std::env::var("VF_CASE") else { return };
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
        let hex: String = data.iter().map(|b| format!("{b:02x}")).collect();
        writeln!(f, "{kind} {name} {hex}").unwrap();
    }
    pub fn rust(v: &V) -> (String, String) {
        match v {
            V::Int(n) => ("i64".into(), format!("{n}")), V::Bool(b) => ("bool".into(), format!("{b}")), V::Char(c) => ("char".into(), format!("{:?}", char::from_u32(*c).unwrap())),
            V::Str(s) => ("&'static str".into(), format!("{:?}", String::from_utf8_lossy(s))),
            V::List(l) if l.iter().all(|x| matches!(x, V::Int(_))) => ("conf::Ints".into(), format!("conf::Ints(vec![{}])", l.iter().map(|x| rust(x).1).collect::<Vec<_>>().join(", "))),
            V::List(l) => { let p: Vec<_> = l.iter().map(rust).collect(); (format!("Vec<{}>", p.first().map_or("i64", |x| &x.0)), format!("vec![{}]", p.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))) }
            V::Tup(l) => { let p: Vec<_> = l.iter().map(rust).collect(); (format!("({},)", p.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), format!("({},)", p.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))) }
            V::Enum("Some", x) => { let x = rust(&x[0]); (format!("Option<{}>", x.0), format!("Some({})", x.1)) }
            V::Enum("None", _) => ("Option<i64>".into(), "None".into()),
            V::Enum("Ok", x) => { let x = rust(&x[0]); (format!("Result<{}, std::fmt::Error>", x.0), format!("Ok({})", x.1)) }
            V::Enum("Err", _) => ("Result<i64, std::fmt::Error>".into(), "Err(std::fmt::Error)".into()),
            V::Enum(n, x) => ("Color".into(), if x.is_empty() { format!("Color::{n}") } else { format!("Color::{n}({})", rust(&x[0]).1) }),
            V::Obj(o) => ("Nested".into(), format!("Nested {{ {} ..Default::default() }}", o.iter().map(|(n, v)| format!("{n}: {}, ", rust(v).1)).collect::<String>())),
            _ => ("()".into(), "()".into()),
        }
    }
}
#[cfg(feature = "native")]
fn native_case(c: &Case) { case::line("item", "-", c.item.as_bytes()); for (p, x) in &c.files { case::line("file", at(p).strip_prefix("/vfs/").unwrap(), x) } }
#[cfg(feature = "native")]
fn native_code(c: &str) { case::line("code", "-", c.as_bytes()) }
/// an item of its own instead of the struct with the data as fields, and how to make one
#[cfg(feature = "native")]
pub fn native_make(make: &str, decl: &str) { case::line("make", "-", make.as_bytes()); case::line("decl", "-", decl.as_bytes()) }
#[cfg(not(feature = "native"))]
pub fn native_make(_: &str, _: &str) {}
#[cfg(not(feature = "native"))]
fn native_code(_: &str) {}
#[cfg(feature = "native")]
fn native_world(w: &World) { for (n, v) in &w.fields { let (mut ty, mut x) = case::rust(v); if matches!((*n, v), ("t", V::Str(_))) { ty = "String".into(); x.push_str(".to_string()") } case::line("field", n, format!("{ty}\u{1}{x}").as_bytes()) } }
#[cfg(feature = "native")]
fn native_expect(x: &Option<(Vec<u8>, bool)>) { if let Some((o, ok)) = x { case::line("expect", if *ok { "ok" } else { "err" }, o) } }
#[cfg(not(feature = "native"))]
fn native_case(_: &Case) {}
#[cfg(not(feature = "native"))]
fn native_world(_: &World) {}
#[cfg(not(feature = "native"))]
fn native_expect(_: &Option<(Vec<u8>, bool)>) {}

fn spike() { decide(&one(vec![tx("Hi "), ex("s"), t(K::If(v("p"))), tx(" A"), t(K::Else), tx("B"), t(K::EndIf), t(K::For(P::N("x"), v("xs"), None)), ex("x"), tx(","), t(K::EndFor)]), None, "", world, "spike") }
use inc::{include_places, include_paths, imports, filter_block, filter_nested}; use inh::{inherit_chain, inherit_deep, inherit_scopes, fragments}; use ws::*; use sel::{if_chain, match_arms, select_nested}; use scope::*; use mac::{macro_args, macro_bodies, macro_effects, macro_counts};
use dep::{dependencies, dependencies_fragment}; use cfg::{attr_output, delimiters, syntaxes, config_dirs, config_ws}; use tot::{dt_source, dt_names, dt_attrs, dt_toml, dt_graph, dt_deep, dt_filters, dt_calls, dt_targets, dt_tags};
use xp::{int_chains, int_places, bool_chains, comparisons, values, eval_output, eval_tags}; use kw::names; use item::items; use lp::{loops, loops_nested, loops_targets}; use mis::{mis_calls, mis_args, mis_tags, mis_places, mis_files, mis_names, mis_attrs}; use hyg::{hygiene, hygiene_head};
vf::harnesses!(spike, items, hygiene, hygiene_head, mis_calls, mis_args, mis_tags, mis_places, mis_files, mis_names, mis_attrs, dependencies, dependencies_fragment, attr_output, delimiters, syntaxes, config_dirs, config_ws, dt_source, dt_names, dt_attrs, dt_toml, dt_graph, dt_deep, dt_filters, dt_calls, dt_targets, dt_tags, int_chains, int_places, bool_chains, comparisons, values, eval_output, eval_tags, names, loops, loops_nested, loops_targets, ws_hole, ws_pair, if_chain, match_arms, select_nested, let_sequences, let_scopes, let_names, macro_args, macro_bodies, macro_effects, macro_counts, inherit_chain, inherit_deep, inherit_scopes, fragments, include_places, include_paths, imports, filter_block, filter_nested);
