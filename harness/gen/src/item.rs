//! P33: the kinds of types a template can be
use crate::*;
fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect::<String>().replace(",>", ">") }
/// the head of the implementation of the trait: what is generic, the type, and the where clause
fn head(code: &str, tr: &str) -> Option<(String, String)> {
    let at = code.find(&format!("{tr}for"))?;
    let from = code[..at].rfind("impl")? + 4;
    let to = at + tr.len() + 3;
    Some((code[from..at].to_string(), code[to..to + code[to..].find('{')?].trim_end_matches(',').to_string()))
}
const LABEL: &str = "the type gets the implementations for exactly what it is generic over";
pub fn items() {
    let life = pick(3); let ty = pick(4); let cn = pick(3); let wh = pick(5); let kind = pick(6);
    // declared, implemented, named: what the type is generic over
    let (mut d, mut i, mut n): (Vec<&str>, Vec<&str>, Vec<&str>) = (vec![], vec![], vec![]);
    let mut add = |a, b, c| { d.push(a); i.push(b); n.push(c) };
    if life > 0 { add("'a", "'a", "'a") }
    if life > 1 { if wh & 2 > 0 { add("'b", "'b", "'b") } else { add("'b: 'a", "'b: 'a", "'b") } }
    match ty {
        1 => add("X: std::fmt::Display", "X: std::fmt::Display", "X"),
        2 => { add("X", "X", "X"); add("Y: Clone + std::fmt::Debug", "Y: Clone + std::fmt::Debug", "Y") }
        3 if cn != 1 => add("X: std::fmt::Display + PartialOrd<X> = i64", "X: std::fmt::Display + PartialOrd<X>", "X"),
        3 => add("X: std::fmt::Display + PartialOrd<X>", "X: std::fmt::Display + PartialOrd<X>", "X"),
        _ => {}
    }
    match cn { 1 => add("const N: usize", "const N: usize", "N"), 2 => add("const N: usize = 2", "const N: usize", "N"), _ => {} }
    let mut p: Vec<&str> = vec![];
    if ty > 0 && wh & 1 > 0 || ty == 2 { p.push("X: std::fmt::Display") }
    if ty > 0 && wh & 2 > 0 { p.push("for<'x> Option<&'x X>: std::fmt::Debug") }
    if life > 1 && wh & 2 > 0 { p.push("'b: 'a") }
    if cn > 0 && wh & 4 > 0 { p.push("[u8; N]: Default") }
    let angle = |v: &Vec<&str>| if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) };
    let clause = if p.is_empty() { String::new() } else { format!(" where {}{}", p.join(", "), if wh == 3 { "," } else { "" }) };
    // fields and the values they are made of
    let mut f: Vec<(&str, &str, &str)> = vec![("v", if ty > 0 { "X" } else { "i64" }, "7i64")];
    if life > 0 { f.push(("s", "&'a str", "\"x<y\"")) }
    if life > 1 { f.push(("t", "&'b str", "\"t\"")) }
    if ty == 2 { f.push(("y", "Y", "8i64")) }
    if cn > 0 { f.push(("n", "[u8; N]", "[1, 2]")) }
    let name = ["Page", "r#type", "Ünï"][pick(3)];
    let deco = pick(3);
    let before = ["", "#[allow(dead_code)] ", "/// a page\n#[derive(Clone)] "][deco];
    let vis = ["", "pub ", "pub(crate) "][if tier() > 0 { pick(3) } else { deco }];
    let (decl, source, make, out) = match kind {
        0 => (format!("struct {name}{}{clause} {{ {} }}", angle(&d), f.iter().map(|x| format!("{}: {}", x.0, x.1)).collect::<Vec<_>>().join(", ")), "<{{ v }}>", format!("{name} {{ {} }}", f.iter().map(|x| format!("{}: {}", x.0, x.2)).collect::<Vec<_>>().join(", ")), "<7>"),
        1 => (format!("struct {name}{}({}){clause};", angle(&d), f.iter().map(|x| x.1).collect::<Vec<_>>().join(", ")), "<{{ self.0 }}>", format!("{name}({})", f.iter().map(|x| x.2).collect::<Vec<_>>().join(", ")), "<7>"),
        2 => (format!("enum {name}{}{clause} {{ One({}), Two {{ z: char }}, Three }}", angle(&d), f.iter().map(|x| x.1).collect::<Vec<_>>().join(", ")), "<{% match self %}{% when Self::Two with { z } %}{{ z }}{% else %}{% endmatch %}>", format!("if true {{ {name}::Two {{ z: 'k' }} }} else {{ {name}::One({}) }}", f.iter().map(|x| x.2).collect::<Vec<_>>().join(", ")), "<k>"),
        3 => (format!("struct {name}{}{clause} {{ {}, }}", angle(&d), f.iter().map(|x| format!("pub {}: ({}, Option<i64>)", x.0, x.1)).collect::<Vec<_>>().join(", ")), "<{{ v.0 }}{% if let Some(x) = v.1 %}{{ x }}{% endif %}>", format!("{name} {{ {} }}", f.iter().map(|x| format!("{}: ({}, Some(9))", x.0, x.2)).collect::<Vec<_>>().join(", ")), "<79>"),
        4 if life + ty + cn == 0 => (format!("struct {name};"), "<x>", name.to_string(), "<x>"),
        5 if life + ty + cn == 0 => (format!("enum {name} {{ One, Two }}"), "<x>", format!("if true {{ {name}::One }} else {{ {name}::Two }}"), "<x>"),
        _ => return,
    };
    let attr = ["#[template(source = ", &cfg::quoted(source.as_bytes()), ", ext = \"txt\")] "].concat();
    let item = [before, &attr, vis, &decl].concat();
    let c = Case { item: item.clone(), files: vec![], ext: None, mime: None };
    c.put();
    native_make(&make, &[before, vis, &decl].concat());
    match derive::verif::derive(&item) {
        Err(e) => { debug(e.as_bytes()); emits(&e); native_expect(&Some((out.as_bytes().to_vec(), true))); check(false, "a type that can be a template is rejected") }
        Ok(code) => {
            debug(code.as_bytes());
            native_code(&code);
            native_expect(&Some((out.as_bytes().to_vec(), true)));
            let code = squeeze(&code);
            for tr in ["::askama::Template", "::std::fmt::Display"] {
                let Some((g, t)) = head(&code, tr) else { inconclusive("no such implementation in the generated code") };
                emits(&g); emits(&t);
                check_str(&g, &squeeze(&angle(&i)), LABEL);
                check_str(&t, &squeeze(&[name, &angle(&n), clause.trim_end_matches(',')].concat()), LABEL);
            }
            reach("rendered");
        }
    }
}
