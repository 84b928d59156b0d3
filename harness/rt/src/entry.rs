use vf::*;
use askama::{DynTemplate, Template};
use crate::esc::{ref_html, Chunky};
use std::fmt::{self, Write};

#[derive(Template)]
#[template(source = "x{{ a }}-{% if f %}{{ c }}{% else %}no{% endif %}{% for i in xs %}{{ i }},{% endfor %}end", ext = "html")]
struct T1 { a: String, f: bool, c: Chunky, xs: Vec<String> }

fn mk(a: &str) -> T1 { let f = flag(); let c = Chunky(vec![(pick(3) as u8, astr(1)), (0, "&".into())]); let n = pick(3); T1 { a: a.into(), f, c, xs: vec![a.into(); n] } }
fn want(t: &T1) -> Vec<u8> {
    let mut w = b"x".to_vec(); w.extend(ref_html(t.a.as_bytes())); w.push(b'-');
    if t.f { w.extend(ref_html(t.c.all().as_bytes())) } else { w.extend(b"no") }
    for x in &t.xs { w.extend(ref_html(x.as_bytes())); w.push(b','); }
    w.extend(b"end"); w
}
pub fn ent_same() {
    let a = sstr(2, b"a<&");
    let t = mk(&a);
    let w = want(&t);
    check_eq(t.render().unwrap().as_bytes(), &w, "render");
    let mut s = String::from("pre"); t.render_into(&mut s).unwrap();
    check_eq(s.as_bytes(), &[b"pre", &w[..]].concat(), "render_into appends");
    let mut v = b"pre".to_vec(); t.write_into(&mut v).unwrap();
    check_eq(&v, &[b"pre", &w[..]].concat(), "write_into appends");
    check_eq(t.to_string().as_bytes(), &w, "Display");
    check_eq(format!("{}", t).as_bytes(), &w, "format!");
    check_eq((&&t).render().unwrap().as_bytes(), &w, "render through references");
    check_eq(t.render().unwrap().as_bytes(), &w, "render twice");
    // a template as a value inside of another one
    #[derive(Template)] #[template(source = "[{{ t }}|{{ t|safe }}]", ext = "txt")] struct O<'a> { t: &'a T1 }
    check_eq(O { t: &t }.render().unwrap().as_bytes(), &[b"[", &w[..], b"|", &w, b"]"].concat(), "template as a value");
}
pub fn ent_dyn() {
    let a = sstr(2, b"a<&");
    let t = mk(&a);
    let w = want(&t);
    let dt: &dyn DynTemplate = &t;
    check_eq(dt.dyn_render().unwrap().as_bytes(), &w, "dyn_render");
    let mut s = String::from("pre"); dt.dyn_render_into(&mut s).unwrap();
    check_eq(s.as_bytes(), &[b"pre", &w[..]].concat(), "dyn_render_into");
    let mut v = b"pre".to_vec(); dt.dyn_write_into(&mut v).unwrap();
    check_eq(&v, &[b"pre", &w[..]].concat(), "dyn_write_into");
    check_eq(dt.to_string().as_bytes(), &w, "Display of dyn DynTemplate");
    check(dt.extension() == Some("html") && <T1 as Template>::EXTENSION == Some("html") && <&T1 as Template>::EXTENSION == Some("html"), "extension");
    check(dt.mime_type() == "text/html; charset=utf-8" && <&T1 as Template>::MIME_TYPE == dt.mime_type(), "mime type");
    check(dt.size_hint() == <T1 as Template>::SIZE_HINT && <&T1 as Template>::SIZE_HINT == dt.size_hint(), "size hint");
    let mut s = String::from("q"); (&t).render_into(&mut s as &mut dyn Write).unwrap();
    check_eq(s.as_bytes(), &[b"q", &w[..]].concat(), "render_into dyn Write through a reference");
    let mut v = vec![]; (&&t).write_into(&mut v as &mut dyn std::io::Write).unwrap();
    check_eq(&v, &w, "write_into dyn Write through references");
}
/// accepts `left` bytes, then fails; remembers whether it was written to after failing
struct Lim { left: usize, got: Vec<u8>, failed: bool, after: bool }
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed { self.after = true; return Ok(()); }
        if s.len() > self.left { self.failed = true; return Err(fmt::Error); }
        self.left -= s.len(); self.got.extend_from_slice(s.as_bytes()); Ok(())
    }
}
impl std::io::Write for Lim {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.failed { self.after = true; return Ok(b.len()); }
        if b.len() > self.left { self.failed = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.left -= b.len(); self.got.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn lim(max: usize) -> Lim { Lim { left: pick(max + 1), got: vec![], failed: false, after: false } }
fn outcome(ok: bool, l: &Lim, w: &[u8], what: &str) {
    check(ok != l.failed, what);
    check(!l.after, "nothing is written after the writer failed");
    check(l.got.len() <= w.len() && eq(&l.got, &w[..l.got.len()]), "the output before the failure is a prefix of the rendering");
    if ok { check(l.got.len() == w.len(), "a successful rendering is complete"); }
    reach(if ok { "ok" } else { "writer failed" });
}
pub fn ent_err() {
    let a = sstr(1, b"a<");
    let t = mk(&a);
    let w = want(&t);
    let mut l = lim(24);
    match pick(4) {
        0 => { let r = t.render_into(&mut l); if let Err(e) = &r { check(matches!(e, askama::Error::Fmt(_)), "a writer failure is reported as Fmt"); } outcome(r.is_ok(), &l, &w, "render_into reports a writer failure") }
        1 => { let r = write!(l, "{}", t); outcome(r.is_ok(), &l, &w, "Display reports a writer failure") }
        2 => { let r = (&t as &dyn DynTemplate).dyn_render_into(&mut l); outcome(r.is_ok(), &l, &w, "dyn_render_into reports a writer failure") }
        _ => { let r = write!(l, "{}", &t as &dyn DynTemplate); outcome(r.is_ok(), &l, &w, "Display of dyn reports a writer failure") }
    }
}
pub fn ent_ioerr() {
    let a = sstr(1, b"a<");
    let t = mk(&a);
    let w = want(&t);
    let mut l = lim(24);
    let r = if flag() { t.write_into(&mut l) } else { (&t as &dyn DynTemplate).dyn_write_into(&mut l) };
    if let Err(e) = &r { check(e.to_string() == "full", "write_into returns the writer's own error"); }
    outcome(r.is_ok(), &l, &w, "write_into reports a writer failure");
}
/// takes at most `step` bytes at a time, and is interrupted now and then
struct Slow { step: usize, got: Vec<u8>, intr: Vec<bool>, calls: usize, left: usize }
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr.get(self.calls - 1) == Some(&true) { return Err(std::io::ErrorKind::Interrupted.into()) }
        let n = b.len().min(self.step).min(self.left);
        self.left -= n; self.got.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// writers which take a part of what they are given, are interrupted, or take nothing any more
pub fn ent_short() {
    let a = sstr(1, b"a<");
    let t = mk(&a);
    let w = want(&t);
    let mut l = Slow { step: 1 + pick(4), got: vec![], intr: (0..pick(3)).map(|_| flag()).collect(), calls: 0, left: [999, pick(12)][pick(2)] };
    let r = match pick(4) { 0 => t.write_into(&mut l), 1 => (&&t).write_into(&mut l), 2 => t.write_into(&mut l as &mut dyn std::io::Write), _ => (&t as &dyn DynTemplate).dyn_write_into(&mut l) };
    check(l.got.len() <= w.len() && eq(&l.got, &w[..l.got.len()]), "what a slow writer got is a prefix of the rendering");
    check(r.is_ok() == (l.got.len() == w.len()), "success is reported exactly if a slow writer got everything");
    check((l.left >= 100) == (l.got.len() == w.len()) || l.got.len() == w.len(), "a slow writer gets everything");
    reach(if r.is_ok() { "ok" } else { "writer failed" });
}
#[derive(Debug)] struct MyErr(u8);
impl fmt::Display for MyErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "my{}", self.0) } }
impl std::error::Error for MyErr {}
impl<'a> TErr<'a> { fn res(&self, bad: bool) -> Result<&'a str, MyErr> { if bad { Err(MyErr(7)) } else { Ok(self.v) } } }
#[derive(Template)]
#[template(source = "a{{ self.res(self.b1.clone())? }}b{% if self.res(self.b2.clone())? == \"\" %}E{% else %}N{% endif %}{% let q = self.res(self.b3.clone())? %}{{ q }}c", ext = "txt")]
struct TErr<'a> { v: &'a str, b1: bool, b2: bool, b3: bool }
pub fn ent_custom_err() {
    let v = astr(1);
    let t = TErr { v: &v, b1: flag(), b2: flag(), b3: flag() };
    let mut s = String::new();
    let r = t.render_into(&mut s);
    let b = v.as_bytes();
    let mut full = b"a".to_vec(); full.extend(b); full.extend(b"b"); full.extend(if b.is_empty() { b"E" } else { b"N" }); full.extend(b); full.extend(b"c");
    if t.b1 || t.b2 || t.b3 {
        match r { Err(askama::Error::Custom(e)) => check(e.to_string() == "my7", "the custom error is passed on"), _ => fail("an error raised by ? is not returned as Custom") }
        match t.render() { Err(e) => { check(std::error::Error::source(&e).and_then(|e| e.downcast_ref::<MyErr>()).map(|e| e.0) == Some(7), "the custom error is the source"); check(e.to_string() == "my7", "the text of the custom error is kept") } Ok(_) => fail("render reports no error") }
        match t.render() { Err(askama::Error::Custom(e)) => check(e.downcast_ref::<MyErr>().map(|e| e.0) == Some(7), "the custom error keeps its type"), _ => fail("render drops the custom error") }
        // what was written is a prefix, and nothing behind the failing expression
        let stop = if t.b1 { 1 } else if t.b2 { 2 + b.len() } else { 3 + b.len() };
        check(s.len() <= stop && eq(s.as_bytes(), &full[..s.len()]), "nothing behind the failing expression is written");
        check(write!(String::new(), "{}", t).is_err(), "Display reports the error");
        reach("error");
    } else { check(r.is_ok(), "no error without a failure"); check_eq(s.as_bytes(), &full, "output without failure"); reach("ok"); }
}
mod filters {
    pub fn maybe(s: &str, bad: &bool) -> askama::Result<String> { if *bad { Err(askama::Error::Fmt(std::fmt::Error)) } else { Ok(s.to_string()) } }
}
#[derive(Template)]
#[template(source = "a{{ v|maybe(b1) }}b{% filter upper %}x{{ v|maybe(b2)|upper }}{% endfilter %}{% for x in [1] %}{{ v|maybe(b3) }}{% endfor %}", ext = "txt")]
struct TFErr<'a> { v: &'a str, b1: bool, b2: bool, b3: bool }
struct BadDisplay(bool);
impl fmt::Display for BadDisplay { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("p")?; if self.0 { Err(fmt::Error) } else { f.write_str("q") } } }
#[derive(Template)]
#[template(source = "a{{ d }}b{{ d|safe }}{{ d|truncate(5) }}", ext = "html")]
struct TBad { d: BadDisplay }
pub fn ent_filter_err() {
    let v = sstr(1, b"kz");
    let t = TFErr { v: &v, b1: flag(), b2: flag(), b3: flag() };
    let r = t.render();
    if t.b1 || t.b2 || t.b3 { check(matches!(r, Err(askama::Error::Fmt(_))), "a failing filter fails the rendering"); reach("error") }
    else { check_eq(r.unwrap().as_bytes(), format!("a{}bX{}{}", v, v.to_ascii_uppercase(), v).as_bytes(), "output without failure"); reach("ok") }
    let b = TBad { d: BadDisplay(flag()) };
    let r = b.render();
    if b.d.0 { check(matches!(r, Err(askama::Error::Fmt(_))), "a failing Display value fails the rendering") } else { check_str(&r.unwrap(), "apqbpqpq", "Display value") }
}
pub fn loop_vars() {
    let n = pick(5);
    let v: Vec<u8> = (0..n).map(|_| byte()).collect();
    let mut got = 0;
    for (x, l) in askama::helpers::TemplateLoop::new(v.iter()) {
        check(*x == v[got], "items in order");
        check(l.index == got && l.first == (got == 0) && l.last == (got + 1 == n), "loop variables");
        got += 1;
    }
    check(got == n, "every item once");
}
#[derive(Template)]
#[template(source = "{% for x in xs if self.big(x) %}{{ loop.index }}/{{ loop.index0 }}/{{ loop.first }}/{{ loop.last }}/{{ loop.cycle([\"p\", \"q\"]) }}/{% for y in xs %}{% if y|deref == 0 %}{% continue %}{% endif %}{% if y|deref == 3 %}{% break %}{% endif %}{{ loop.index }}{% endfor %}/{{ loop.index }};{% else %}none{% endfor %}", ext = "txt")]
struct TLoop { xs: Vec<u8> }
impl TLoop { fn big(&self, x: &u8) -> bool { *x > 1 } }
pub fn loop_tpl() {
    let n = pick(5);
    let xs: Vec<u8> = (0..n).map(|_| range(0, 3)).collect();
    let t = TLoop { xs };
    let sel: Vec<u8> = t.xs.iter().copied().filter(|x| *x > 1).collect();
    let mut w = String::new();
    for i in 0..sel.len() {
        write!(w, "{}/{}/{}/{}/{}/", i + 1, i, i == 0, i + 1 == sel.len(), if i % 2 == 0 { "p" } else { "q" }).unwrap();
        for (k, y) in t.xs.iter().enumerate() { if *y == 0 { continue } if *y == 3 { break } write!(w, "{}", k + 1).unwrap(); }
        write!(w, "/{};", i + 1).unwrap();
    }
    if sel.is_empty() { w.push_str("none") }
    check_str(&t.render().unwrap(), &w, "for loop");
}

// ---- long outputs: buffers and limits are not special ----
const SIZES: &[usize] = &[0, 1, 7, 63, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193];
#[derive(Template)] #[template(source = "{{ a }}", ext = "txt")] struct TL1<'a> { a: &'a str }
#[derive(Template)] #[template(source = "{{ a }}{{ b }}<{% for x in xs %}{{ x }}{% endfor %}", ext = "html")] struct TL2<'a> { a: &'a str, b: &'a str, xs: [&'a str; 2] }
/// the value in pieces of the given size
struct Pieces<'a>(&'a str, usize);
impl fmt::Display for Pieces<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut s = self.0; while !s.is_empty() { let mut n = self.1.min(s.len()); while !s.is_char_boundary(n) { n += 1 } f.write_str(&s[..n])?; s = &s[n..] } Ok(()) } }
#[derive(Template)] #[template(source = "{{ a }}!", ext = "txt")] struct TL3<'a> { a: Pieces<'a> }
fn everywhere<'a, T: Template + 'a>(t: &'a T, w: &[u8]) {
    let d: &(dyn DynTemplate + 'a) = t;
    match pick(10) {
        7 => { let s = d.dyn_render().unwrap(); check_eq(s.as_bytes(), w, "long dyn_render") }
        8 => { let mut s = String::new(); d.dyn_render_into(&mut s).unwrap(); check_eq(s.as_bytes(), w, "long dyn_render_into") }
        9 => { let mut s = String::new(); (&t).render_into(&mut s as &mut dyn Write).unwrap(); check_eq(s.as_bytes(), w, "long render_into through a reference") }
        0 => { let s = t.render().unwrap(); check_eq(s.as_bytes(), w, "long render") }
        1 => { let mut s = String::from("p"); t.render_into(&mut s).unwrap(); check(s.len() == w.len() + 1 && eq(&s.as_bytes()[1..], w), "long render_into") }
        2 => { let mut v = vec![7]; t.write_into(&mut v).unwrap(); check(v.len() == w.len() + 1 && eq(&v[1..], w), "long write_into") }
        3 => { let s = t.to_string(); check_eq(s.as_bytes(), w, "long Display") }
        4 => { let mut b = vec![0u8; 8193 * 5 + 30]; let n = { let mut c = &mut b[..]; t.write_into(&mut c).unwrap(); 8193 * 5 + 30 - c.len() }; check(eq(&b[..n], w), "long write_into a slice") }
        5 => { let mut b = vec![0u8; w.len().saturating_sub(1 + pick(3))]; let mut c = &mut b[..]; let r = t.write_into(&mut c); let left = c.len(); check(r.is_err() || w.is_empty(), "a slice that is too short is an error"); let n = b.len() - left; check(eq(&b[..n], &w[..n]), "a slice that is too short gets a prefix") }
        _ => {
            let mut l = Slow { step: [1, 256, 1024, 5000, 255, 1000, 4096][pick(bound(4, 7))], got: vec![], intr: vec![false, true], calls: 0, left: [usize::MAX, w.len().saturating_sub(1), 1024, w.len(), w.len() / 2, 4096][pick(bound(3, 6))] };
            let cap = l.left;
            let r = match pick(2) { 0 => t.write_into(&mut l), _ => d.dyn_write_into(&mut l) };
            check(eq(&l.got, &w[..l.got.len().min(w.len())]), "a slow writer gets a prefix of a long output");
            check(r.is_ok() == (cap >= w.len()), "a slow writer of a long output fails only if it takes no more");
            if r.is_ok() { check(l.got.len() == w.len(), "a slow writer gets all of a long output") }
        }
    }
}
pub fn ent_long() {
    let n = SIZES[pick(SIZES.len())];
    let mut s = String::from(["", "1", "12"][pick(bound(2, 3))]);
    s.push_str(&["x", "京", "y<", "é"][pick(bound(3, 4))].repeat(n));
    s.push_str(&sstr(1, b"a<\n"));
    if s.len() < 100 && flag() { s = " ".repeat(s.len()) }
    match pick(3) {
        0 => everywhere(&TL1 { a: &s }, s.as_bytes()),
        1 => { let e = ref_html(s.as_bytes()); everywhere(&TL2 { a: &s, b: "k", xs: ["<", "l"] }, &[&e[..], b"k<&lt;l"].concat()) }
        _ => { everywhere(&TL3 { a: Pieces(&s, [1, 16, 255, 1024, 9999][pick(5)]) }, &[s.as_bytes(), b"!"].concat()) }
    }
}
/// a text writer failing after any number of bytes of a long output
pub fn ent_long_err() {
    let n = SIZES[pick(SIZES.len())];
    let s = "x".repeat(n);
    let p = Pieces(&s, [1, 100, 1024, 9999][pick(4)]);
    let t = TL3 { a: p };
    let w = [s.as_bytes(), b"!"].concat();
    let mut l = Lim { left: [0, 1, n / 2, n.saturating_sub(1), n, n + 1, 1024, 4096, 8192][pick(9)], got: vec![], failed: false, after: false };
    let r = match pick(3) { 0 => t.render_into(&mut l).is_ok(), 1 => write!(l, "{}", t).is_ok(), _ => t.write_into(&mut l).is_ok() };
    outcome(r, &l, &w, "a failure in a long output is reported");
}
/// all kinds of errors of byte writers
pub fn ent_io_kinds() {
    use std::io::{Error, ErrorKind};
    const K: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::NotFound];
    struct W { kind: usize, at: usize, calls: usize, got: Vec<u8>, flushed: usize }
    impl std::io::Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.calls += 1;
            if self.calls > self.at { return Err(match self.kind { 12 => Error::from_raw_os_error(32), 13 => Error::new(ErrorKind::Other, MyErr(3)), k => K[k].into() }) }
            self.got.extend_from_slice(b); Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> { self.flushed += 1; Ok(()) }
    }
    let t = mk("a<");
    let w = want(&t);
    let mut l = W { kind: pick(14), at: pick(12), calls: 0, got: vec![], flushed: 0 };
    let r = match pick(3) { 0 => t.write_into(&mut l), 1 => (&t).write_into(&mut l as &mut dyn std::io::Write), _ => (&t as &dyn DynTemplate).dyn_write_into(&mut l) };
    check(l.got.len() <= w.len() && eq(&l.got, &w[..l.got.len()]), "what a failing writer got is a prefix of the rendering");
    check(r.is_ok() == (l.calls <= l.at), "a writer's failure is reported, and only that");
    match r {
        Ok(()) => { check(l.got.len() == w.len(), "success means everything was written"); reach("ok") }
        Err(e) => {
            check(l.calls == l.at + 1, "nothing is written after a failure");
            match l.kind { 12 => check(e.raw_os_error() == Some(32), "the operating system's error is returned"), 13 => check(e.get_ref().and_then(|e| e.downcast_ref::<MyErr>()).map(|e| e.0) == Some(3), "the writer's error is returned with its content"), k => check(e.kind() == K[k], "the kind of the writer's error is returned") }
            reach("writer failed")
        }
    }
}
/// an error raised in the template, through every entry point
pub fn ent_raise() {
    let t = TErr { v: "k", b1: flag(), b2: flag(), b3: flag() };
    let bad = t.b1 || t.b2 || t.b3;
    let full: &[u8] = b"akbNkc";
    let stop = if t.b1 { 1 } else if t.b2 { 3 } else if t.b3 { 4 } else { 6 };
    let mut l = Lim { left: 99, got: vec![], failed: false, after: false };
    let d: &dyn DynTemplate = &t;
    let custom = |r: askama::Result<()>| match r { Ok(()) => check(!bad, "an error raised by ? is reported"), Err(askama::Error::Custom(e)) => check(bad && e.downcast_ref::<MyErr>().map(|e| e.0) == Some(7), "an error raised by ? keeps its type"), Err(_) => fail("an error raised by ? is returned as Custom") };
    match pick(8) {
        0 => custom(t.render_into(&mut l)),
        1 => custom((&&t).render_into(&mut l as &mut dyn Write)),
        2 => custom(d.dyn_render_into(&mut l)),
        3 => { custom(t.render().map(|_| ())); l.got = full[..stop].to_vec() }
        4 => { custom(d.dyn_render().map(|_| ())); l.got = full[..stop].to_vec() }
        5 => check(write!(l, "{}", t).is_err() == bad, "Display reports an error raised by ?"),
        6 => check(t.write_into(&mut l).is_err() == bad, "write_into reports an error raised by ?"),
        _ => check(d.dyn_write_into(&mut l).is_err() == bad, "dyn_write_into reports an error raised by ?"),
    }
    check(l.got.len() <= stop && eq(&l.got, &full[..l.got.len()]) && !l.after, "what was written before an error is a prefix of what stands before it");
    if !bad { check(l.got.len() == full.len(), "everything is written without an error") }
    reach(if bad { "error" } else { "ok" });
}
/// prints its text, and may fail after a number of its bytes
#[derive(Clone)] struct Brk(&'static str, usize);
impl fmt::Display for Brk { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for (i, c) in self.0.bytes().enumerate() { if i == self.1 { return Err(fmt::Error) } f.write_char(c as char)? } if self.1 == self.0.len() { Err(fmt::Error) } else { Ok(()) } } }
macro_rules! bads { ($fun:ident: $($n:literal, $src:literal, $ext:literal, $want:expr);* $(;)?) => {
    fn $fun(i: usize, v: Brk) -> (askama::Result<String>, String, askama::Result<()>, &'static str) {
        $( if i == $n { #[derive(Template)] #[template(source = $src, ext = $ext)] struct B { v: Brk } let b = B { v }; let mut part = String::new(); let q = b.render_into(&mut part); return (b.render(), part, q, $want) } )*
        unreachable!()
    }
} }
bads!(bad_value:
    0, "a{{ v }}z", "txt", "ab<cz"; 1, "a{{ v }}z", "html", "ab&lt;cz"; 2, "a{{ v|safe }}z", "html", "ab<cz"; 3, "a{{ v|e }}z", "txt", "ab<cz"; 4, "a{{ v|truncate(9) }}z", "txt", "ab<cz"; 5, "a{{ v|trim }}z", "txt", "ab<cz";
    6, "a{{ v|upper }}z", "txt", "aB<Cz"; 7, "a{{ v|lower }}z", "txt", "ab<cz"; 8, "a{{ v|capitalize }}z", "txt", "aB<cz"; 9, "a{{ v|title }}z", "txt", "aB<cz"; 10, "a{{ v|wordcount }}z", "txt", "a1z";
    11, "a{{ v|linebreaks }}z", "txt", "a<p>b<c</p>z"; 12, "a{{ v|linebreaksbr }}z", "txt", "ab<cz"; 13, "a{{ v|paragraphbreaks }}z", "txt", "a<p>b<c</p>z"; 14, "a{{ v|indent(2) }}z", "txt", "ab<cz";
    15, "a{{ v|urlencode }}z", "txt", "ab%3Ccz"; 16, "a{{ v|urlencode_strict }}z", "txt", "ab%3Ccz"; 17, "a{{ [v.clone(), v.clone()]|join(\"-\") }}z", "txt", "ab<c-b<cz"; 18, "a{{ [1, 2]|join(v) }}z", "txt", "a1b<c2z"; 19, "a{{ v|uppercase|lowercase }}z", "txt", "ab<cz";
    20, "{% macro m(x) %}[{{ x }}]{% endmacro %}a{% call m(v) %}z", "txt", "a[b<c]z"; 21, "a{% filter lower %}k{{ v }}{% endfilter %}z", "txt", "akb<cz"; 22, "a{% for i in 0..2 %}{{ i }}{{ v }}{% endfor %}z", "txt", "a0b<c1b<cz"; 23, "a{% if true %}{{ v }}{% endif %}z", "txt", "ab<cz";
    24, "a{% block b %}{{ v }}{% endblock %}z", "txt", "ab<cz"; 25, "a{% let w = v.clone() %}{{ w }}z", "txt", "ab<cz"; 26, "a{{ v }}{{ v }}z", "txt", "ab<cb<cz"; 27, "a{% let w %}{% if true %}{% let w = v|truncate(9) %}{% else %}{% let w = v|truncate(9) %}{% endif %}{{ w }}z", "txt", "ab<cz";
    28, "a{% filter indent(1)|trim %} {% filter upper %}{{ v }}{% endfilter %} {% endfilter %}z", "txt", "aB<Cz";
);
/// a value whose Display fails at any of its bytes, in filters and in all places of a template
pub fn ent_bad_value() {
    let at = pick(5);
    let (r, part, q, want) = bad_value(pick(29), Brk("b<c", at));
    emits(&part);
    if at == 4 { check_str(&r.unwrap(), want, "output of a value which does not fail"); check(q.is_ok(), "no error without a failure"); reach("ok") }
    else {
        check(matches!(r, Err(askama::Error::Fmt(_))), "a failing Display is reported as a formatting error by render");
        check(matches!(q, Err(askama::Error::Fmt(_))), "a failing Display is reported as a formatting error by render_into");
        check(part.len() < want.len() && eq(part.as_bytes(), &want.as_bytes()[..part.len()]), "the output before a failing value is a prefix of the rendering");
        reach("error");
    }
}
bads!(bad_format: 0, "a{{ v|fmt(\"{}\") }}z", "txt", "ab<cz"; 1, "a{{ \"{}\"|format(v) }}z", "txt", "ab<cz");
/// the same in the filters which are expanded to format!
pub fn ent_bad_format() {
    let at = pick(5);
    let (r, _, q, want) = bad_format(pick(2), Brk("b<c", at));
    if at == 4 { check_str(&r.unwrap(), want, "output of a formatted value which does not fail"); check(q.is_ok(), "no error without a failure"); reach("ok") }
    else { check(matches!(r, Err(askama::Error::Fmt(_))) && matches!(q, Err(askama::Error::Fmt(_))), "a failing Display is reported as a formatting error by fmt and format"); reach("error") }
}
/// loop variables of long loops
pub fn loop_long() {
    const N: &[usize] = &[10, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 258, 999, 1000, 1001, 4096, 65535, 65536, 65537];
    let n = N[pick(N.len())] + pick(2);
    let mut k = 0;
    for (x, l) in askama::helpers::TemplateLoop::new(0..n) {
        if x != k || l.index != k || l.first != (k == 0) || l.last != (k + 1 == n) { fail("loop variables of a long loop") }
        k += 1;
    }
    check(k == n, "every item of a long loop");
    #[derive(Template)] #[template(source = "{% for x in xs if self.ok(x) %}{{ loop.index }}.{{ loop.index0 }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %}{{ loop.cycle([\"p\", \"q\", \"r\"]) }}{% else %}none{% endfor %}", ext = "txt")] struct T { xs: Vec<u16>, m: u16 }
    impl T { fn ok(&self, x: &u16) -> bool { x % self.m == 0 } }
    if n <= 1001 {
        let t = T { xs: (0..n as u16).collect(), m: 1 + pick(2) as u16 };
        let c = (n + t.m as usize - 1) / t.m as usize;
        let mut w = String::new();
        for i in 0..c { write!(w, "{}.{}{}{}{}", i + 1, i, if i == 0 { "F" } else { "" }, if i + 1 == c { "L" } else { "" }, ["p", "q", "r"][i % 3]).unwrap() }
        check_str(&t.render().unwrap(), &w, "a long loop");
    }
}
