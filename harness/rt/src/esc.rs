use vf::*;
use askama::{filters, Html, MarkupDisplay, Template, Text};
use std::fmt::{self, Write};

/// reference: HTML escaping, written from the documentation
pub fn ref_html(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for &c in s {
        if c == b'<' { o.extend_from_slice(b"&lt;") }
        else if c == b'>' { o.extend_from_slice(b"&gt;") }
        else if c == b'&' { o.extend_from_slice(b"&amp;") }
        else if c == b'"' { o.extend_from_slice(b"&quot;") }
        else if c == b'\'' { o.extend_from_slice(b"&#x27;") }
        else { o.push(c) }
    }
    o
}
pub fn esc_ascii() {
    let s = astr(bound(5, 7));
    let r = askama_escape::escape(&s, Html).to_string();
    check_eq(r.as_bytes(), &ref_html(s.as_bytes()), "escape(Html) output");
    let t = askama_escape::escape(&s, Text).to_string();
    check_str(&t, &s, "escape(Text) is the identity");
    reach(if r == s { "plain" } else { "escaped" });
}
pub fn esc_utf8() {
    let s = ustr(bound(4, 5), 4);
    let r = askama_escape::escape(&s, Html).to_string();
    check_eq(r.as_bytes(), &ref_html(s.as_bytes()), "escape(Html) output, UTF-8");
    check_str(&askama_escape::escape(&s, Text).to_string(), &s, "escape(Text), UTF-8");
    check_eq(MarkupDisplay::new_unsafe(&s, Html).to_string().as_bytes(), &ref_html(s.as_bytes()), "MarkupDisplay(Html), UTF-8");
    check_str(&MarkupDisplay::new_safe(&s, Html).to_string(), &s, "safe MarkupDisplay, UTF-8");
}
/// writes its pieces in separate calls, in one of three ways each
pub struct Chunky(pub Vec<(u8, String)>);
impl fmt::Display for Chunky {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (how, s) in &self.0 {
            match how {
                0 => f.write_str(s)?,
                1 => for c in s.chars() { f.write_char(c)? },
                _ => write!(f, "{}", s)?,
            }
        }
        Ok(())
    }
}
impl Chunky { pub fn all(&self) -> String { let mut o = String::new(); for (_, s) in &self.0 { o.push_str(s) } o } }
pub fn chunky(n: usize, per: usize) -> Chunky { Chunky((0..n).map(|_| (pick(3) as u8, astr(per))).collect()) }

pub fn esc_chunks() {
    let c = chunky(bound(2, 3), 2);
    let all = c.all();
    check_eq(MarkupDisplay::new_unsafe(&c, Html).to_string().as_bytes(), &ref_html(all.as_bytes()), "escaping does not depend on chunking");
    check_str(&MarkupDisplay::new_unsafe(&c, Text).to_string(), &all, "text escaper leaves chunks alone");
    check_str(&MarkupDisplay::new_unsafe(&c, Html).mark_safe().to_string(), &all, "mark_safe disables escaping");
    check_str(&MarkupDisplay::new_safe(&c, Html).mark_safe().to_string(), &all, "mark_safe of safe stays safe");
}
pub fn esc_filters() {
    let s = ustr(bound(3, 4), 3);
    let want = ref_html(s.as_bytes());
    check_eq(filters::escape(Html, &s).unwrap().to_string().as_bytes(), &want, "escape filter");
    check_eq(filters::e(Html, &s).unwrap().to_string().as_bytes(), &want, "e filter");
    check_str(&filters::safe(Html, &s).unwrap().to_string(), &s, "safe filter");
    check_str(&filters::escape(Text, &s).unwrap().to_string(), &s, "escape filter with the text escaper");
    // an escaped value written through a second escaper is escaped twice, never less
    check_eq(MarkupDisplay::new_unsafe(filters::escape(Html, &s).unwrap(), Html).to_string().as_bytes(), &ref_html(&want), "escaping an escaped value");
}
macro_rules! tpl { ($name:ident, $($a:tt)*) => { #[derive(Template)] #[template($($a)*)] struct $name<'a> { v: &'a str } } }
tpl!(THtml, source = "a{{v}}<{{ v|e }}>{{ v|escape(\"none\") }}|{{ v|safe }}&{{ v }}", ext = "html");
tpl!(THtm, source = "{{v}}{{v|e(\"none\")}}", ext = "htm");
tpl!(TSvg, source = "{{v}}", ext = "svg");
tpl!(TXml, source = "{{v}}", ext = "xml");
tpl!(TJ2, source = "{{v}}", ext = "j2");
tpl!(TJinja, source = "{{v}}", ext = "jinja");
tpl!(TJinja2, source = "{{v}}", ext = "jinja2");
tpl!(TNoneEsc, source = "{{v}}", ext = "html", escape = "none");
tpl!(TTxtEsc, source = "{{v}}", ext = "txt", escape = "html");
tpl!(TTxt, source = "{{v}}|{{ v|e }}|{{ v|e(\"html\") }}|{{ v|safe }}", ext = "txt");
tpl!(TMd, source = "{{v}}", ext = "md");
tpl!(TYml, source = "{{v}}", ext = "yml");
fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }
pub fn esc_tpl() {
    let s = ustr(2, 2);
    let v = &*s; let b = v.as_bytes(); let e = ref_html(b);
    let r = |t: askama::Result<String>| t.unwrap().into_bytes();
    check_eq(&r(THtml { v }.render()), &cat(&[b"a", &e, b"<", &e, b">", b, b"|", b, b"&", &e]), "html template");
    check_eq(&r(THtm { v }.render()), &cat(&[&e, b]), "htm template");
    check_eq(&r(TSvg { v }.render()), &e, "svg template");
    check_eq(&r(TXml { v }.render()), &e, "xml template");
    check_eq(&r(TJ2 { v }.render()), &e, "j2 template");
    check_eq(&r(TJinja { v }.render()), &e, "jinja template");
    check_eq(&r(TJinja2 { v }.render()), &e, "jinja2 template");
    check_eq(&r(TTxtEsc { v }.render()), &e, "txt template with escape=html");
}
pub fn esc_text_tpl() {
    let s = ustr(2, 2);
    let v = &*s; let b = v.as_bytes(); let e = ref_html(b);
    let r = |t: askama::Result<String>| t.unwrap().into_bytes();
    check_eq(&r(TNoneEsc { v }.render()), b, "html template with escape=none");
    check_eq(&r(TTxt { v }.render()), &cat(&[b, b"|", b, b"|", &e, b"|", b]), "txt template");
    check_eq(&r(TMd { v }.render()), b, "md template");
    check_eq(&r(TYml { v }.render()), b, "yml template");
}
#[derive(Template)]
#[template(source = "{% macro m(x) %}[{{ x }}]{% endmacro %}{% let y = v %}{% for i in 0..2 %}{{ y }}{{ v|safe }}{% endfor %}{% call m(v) %}{% if let Some(z) = o %}{{ z }}{{ z|safe }}{% endif %}{% match o %}{% when Some with (q) %}{{ q }}{% when None %}-{% endmatch %}{% filter upper %}{{ v }}{% endfilter %}{{ v|upper }}{{ v|upper|safe }}{{ (v, v).0 }}{{ \"<\" }}{{ '<' }}{{ \"<\"|safe }}{{ n }}{{ c }}{{ w[0] }}{{ w|join(\"<\") }}{{ self.v }}{{ v.trim() }}", ext = "html")]
struct TMix<'a> { v: &'a str, o: Option<&'a str>, n: i32, c: char, w: [&'a str; 2] }
pub fn esc_safe_mix() {
    let s = sstr(bound(2, 3), b"<>&\"' aZ\n");
    let v = &*s; let b = v.as_bytes(); let e = ref_html(b);
    let up = s.to_ascii_uppercase().into_bytes();
    let mut want = vec![];
    for _ in 0..2 { want.extend(&e); want.extend(b); }
    want.extend(cat(&[b"[", &e, b"]"]));
    if !s.is_empty() { want.extend(cat(&[&e, b, &e])); } else { want.push(b'-'); }
    // a filter block hands its rendered content to the filter, whose result is escaped like any other expression
    want.extend(ref_html(&e.to_ascii_uppercase()));
    want.extend(ref_html(&up)); want.extend(&up); want.extend(&e);
    want.extend(b"&lt;&lt;<7&lt;"); want.extend(&e);
    want.extend(cat(&[&e, b"&lt;", &e, &e, &ref_html(s.trim().as_bytes())]));
    let t = TMix { v, o: if s.is_empty() { None } else { Some(v) }, n: 7, c: '<', w: [v, v] };
    check_eq(t.render().unwrap().as_bytes(), &want, "escaping in every kind of expression position");
}
