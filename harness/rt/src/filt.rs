use vf::*;
use askama::filters as f;
use crate::esc::chunky;

fn d<T: std::fmt::Display, E: std::fmt::Debug>(r: Result<T, E>) -> String { r.unwrap().to_string() }

/// the longest prefix needed to cover `n` bytes, extended to a character boundary; "..." marks that something was cut
pub fn ref_truncate(s: &str, n: usize) -> String {
    let b = s.as_bytes();
    let mut cut = n;
    while cut < b.len() && (b[cut] & 0xc0) == 0x80 { cut += 1; }
    if cut >= b.len() { return s.into(); }
    let mut o = s[..cut].to_string(); o.push_str("..."); o
}
pub fn f_truncate() {
    let s = ustr(bound(4, 5), 4);
    let n = pick(18);
    check_str(&d(f::truncate(&s, n)), &ref_truncate(&s, n), "truncate");
    check_str(&d(f::truncate(&s, usize::MAX)), &s, "truncate with a huge limit");
    reach(if s.len() > n { "cut" } else { "whole" });
}
pub fn f_truncate_chunks() {
    let n = pick(bound(7, 9));
    let k = pick(3) + 1;
    let mut ps = vec![]; for _ in 0..k { ps.push((pick(3) as u8, ustr(1, bound(2, 4)))); }
    let c = crate::esc::Chunky(ps);
    check_str(&d(f::truncate(&c, n)), &ref_truncate(&c.all(), n), "truncate does not depend on chunking");
}
/// every line but the first is indented; a final newline starts no line
pub fn ref_indent(s: &str, w: usize) -> String {
    let n = s.matches('\n').count();
    let mut want = String::new();
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 { want.push('\n'); if !(l.is_empty() && i == n) { for _ in 0..w { want.push(' '); } } }
        want.push_str(l);
    }
    want
}
pub fn f_indent() {
    let s = sstr(bound(7, 9), b"a\n \r");
    let w = pick(5);
    check_str(&d(f::indent(&s, w)), &ref_indent(&s, w), "indent");
    check_str(&d(f::indent(&s, 10_000)), &s, "indent with an excessive width");
    let u = ustr(3, 3);
    check_str(&d(f::indent(&u, 2)), &ref_indent(&u, 2), "indent, UTF-8");
}
pub fn ref_center(s: &str, w: usize) -> String {
    let n = s.chars().count();
    if w <= n { s.into() } else { let l = (w - n) / 2; let r = w - n - l; format!("{}{}{}", " ".repeat(l), s, " ".repeat(r)) }
}
pub fn f_center() {
    let s = ustr(3, bound(2, 3));
    let w = pick(12);
    check_str(&d(f::center(&s, w)), &ref_center(&s, w), "center");
    check_str(&d(f::center(&s, 10_000)), &s, "center with an excessive width");
}
fn is_ws(c: u8) -> bool { c == b' ' || (9..=13).contains(&c) }
pub fn ref_trim(b: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, b.len());
    while i < j && is_ws(b[i]) { i += 1; }
    while j > i && is_ws(b[j - 1]) { j -= 1; }
    &b[i..j]
}
pub fn f_trim() {
    let c = chunky(bound(2, 3), 2);
    let all = c.all();
    check_eq(d(f::trim(&c)).as_bytes(), ref_trim(all.as_bytes()), "trim");
    let s = sstr(bound(6, 8), b"a \n\t");
    check_eq(d(f::trim(&s)).as_bytes(), ref_trim(s.as_bytes()), "trim of one piece");
}
pub fn ref_words(b: &[u8]) -> usize { let mut n = 0; let mut inw = false; for &c in b { if is_ws(c) { inw = false } else { if !inw { n += 1 } inw = true } } n }
pub fn f_wordcount() {
    let s = astr(bound(7, 9));
    let r = f::wordcount(&s).unwrap();
    emit_n(r as u64);
    check(r == ref_words(s.as_bytes()), "wordcount");
}
fn up(c: u8) -> u8 { if c.is_ascii_lowercase() { c - 32 } else { c } }
fn lo(c: u8) -> u8 { if c.is_ascii_uppercase() { c + 32 } else { c } }
pub fn ref_title(b: &[u8]) -> Vec<u8> {
    let mut want = vec![]; let mut first = true;
    for &c in b { if is_ws(c) { want.push(c); first = true } else { want.push(if first { up(c) } else { lo(c) }); first = false } }
    want
}
pub fn f_title() {
    let s = astr(bound(6, 8));
    check_eq(f::title(&s).unwrap().as_bytes(), &ref_title(s.as_bytes()), "title");
}
pub fn ref_capital(b: &[u8]) -> Vec<u8> { b.iter().enumerate().map(|(i, &c)| if i == 0 { up(c) } else { lo(c) }).collect() }
pub fn f_capital() {
    let s = astr(12);
    check_eq(d(f::capitalize(&s)).as_bytes(), &ref_capital(s.as_bytes()), "capitalize");
}
pub fn f_case() {
    let s = astr(12);
    let u: Vec<u8> = s.bytes().map(up).collect();
    let l: Vec<u8> = s.bytes().map(lo).collect();
    check_eq(d(f::upper(&s)).as_bytes(), &u, "upper");
    check_eq(d(f::uppercase(&s)).as_bytes(), &u, "uppercase");
    check_eq(d(f::lower(&s)).as_bytes(), &l, "lower");
    check_eq(d(f::lowercase(&s)).as_bytes(), &l, "lowercase");
}
pub fn ref_linebreaks(b: &[u8]) -> Vec<u8> {
    let mut want = b"<p>".to_vec();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' && i + 1 < b.len() && b[i + 1] == b'\n' { want.extend(b"</p><p>"); i += 2 }
        else { if b[i] == b'\n' { want.extend(b"<br/>") } else { want.push(b[i]) } i += 1 }
    }
    want.extend(b"</p>"); want
}
pub fn ref_br(b: &[u8]) -> Vec<u8> { let mut br = vec![]; for &c in b { if c == b'\n' { br.extend(b"<br/>") } else { br.push(c) } } br }
pub fn f_linebreaks() {
    let s = sstr(bound(8, 11), b"a\n<\r");
    check_eq(d(f::linebreaks(&s)).as_bytes(), &ref_linebreaks(s.as_bytes()), "linebreaks");
    check_eq(d(f::linebreaksbr(&s)).as_bytes(), &ref_br(s.as_bytes()), "linebreaksbr");
}
/// paragraphs are separated by an empty line; empty ones vanish
pub fn ref_pbreaks(b: &[u8]) -> Vec<u8> {
    let mut want = vec![]; let mut cur = vec![];
    let mut i = 0;
    loop {
        let brk = i + 1 < b.len() && b[i] == b'\n' && b[i + 1] == b'\n';
        if i >= b.len() || brk { if !cur.is_empty() { want.extend(b"<p>"); want.append(&mut cur); want.extend(b"</p>"); } if brk { i += 2; continue } break }
        cur.push(b[i]); i += 1;
    }
    want
}
pub fn f_pbreaks() {
    let s = sstr(bound(9, 12), b"a\n<\r ");
    check_eq(d(f::paragraphbreaks(&s)).as_bytes(), &ref_pbreaks(s.as_bytes()), "paragraphbreaks");
}
pub fn ref_url(b: &[u8], slash: bool) -> Vec<u8> {
    let mut o = vec![];
    for &c in b {
        if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'~' || (slash && c == b'/') { o.push(c) }
        else { let h = |n: u8| if n < 10 { b'0' + n } else { b'A' + n - 10 }; o.push(b'%'); o.push(h(c >> 4)); o.push(h(c & 15)); }
    }
    o
}
pub fn f_urlencode() {
    let s = if flag() { astr(2) } else { ustr(1, 3) };
    check_eq(d(f::urlencode(&s)).as_bytes(), &ref_url(s.as_bytes(), true), "urlencode");
    check_eq(d(f::urlencode_strict(&s)).as_bytes(), &ref_url(s.as_bytes(), false), "urlencode_strict");
}
pub fn f_urlencode_chunks() {
    let c = chunky(2, 1);
    check_eq(d(f::urlencode(&c)).as_bytes(), &ref_url(c.all().as_bytes(), true), "urlencode does not depend on chunking");
    check_eq(d(f::urlencode_strict(&c)).as_bytes(), &ref_url(c.all().as_bytes(), false), "urlencode_strict does not depend on chunking");
}
/// independent JSON string reader
pub fn unjson(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    if b.first() != Some(&b'"') { return None; }
    let mut o = vec![]; let mut i = 1;
    while i < b.len() {
        let c = b[i];
        if c == b'"' { return Some((o, i + 1)); }
        if c < 0x20 { return None; }
        if c != b'\\' { o.push(c); i += 1; continue; }
        let e = *b.get(i + 1)?;
        match e {
            b'"' | b'\\' | b'/' => o.push(e), b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'), b'b' => o.push(8), b'f' => o.push(12),
            b'u' => { let h = |c: u8| -> Option<u32> { match c { b'0'..=b'9' => Some((c - b'0') as u32), b'a'..=b'f' => Some((c - b'a') as u32 + 10), b'A'..=b'F' => Some((c - b'A') as u32 + 10), _ => None } };
                let mut v = 0; for k in 0..4 { v = v * 16 + h(*b.get(i + 2 + k)?)?; } i += 4; if v >= 128 { return None; } o.push(v as u8) }
            _ => return None,
        }
        i += 2;
    }
    None
}
pub fn no_markup(b: &[u8]) -> bool { !b.iter().any(|c| matches!(c, b'<' | b'>' | b'&' | b'\'')) }
pub fn f_json_str() {
    let s = ustr(3, bound(3, 4));
    let r = d(f::json(&s));
    emits(&r);
    check(no_markup(r.as_bytes()), "json output is free of & < > '");
    match unjson(r.as_bytes()) {
        Some((v, n)) => { check(n == r.len(), "json output is one string token"); check_eq(&v, s.as_bytes(), "json output decodes to the value"); }
        None => fail("json output is not a JSON string"),
    }
}
pub fn f_json_struct() {
    let s = sstr(2, b"a<>&'\"\\\n\x01");
    let k = sstr(1, b"k<&'");
    let mut m = std::collections::BTreeMap::new();
    m.insert(k.clone(), vec![s.clone(), k.clone()]);
    let r = d(f::json(&m));
    emits(&r);
    let b = r.as_bytes();
    check(no_markup(b), "json output of nested values is free of & < > '");
    // structure: {  key  :  [  v1 , v2 ]  }
    let mut i = 0;
    let ws = |i: &mut usize| while *i < b.len() && (b[*i] == b' ' || b[*i] == b'\n') { *i += 1 };
    let mut toks: Vec<Vec<u8>> = vec![];
    ws(&mut i);
    while i < b.len() {
        if b[i] == b'"' { match unjson(&b[i..]) { Some((v, n)) => { let mut t = b"s".to_vec(); t.extend(v); toks.push(t); i += n } None => fail("bad JSON string") } }
        else { toks.push(vec![b[i]]); i += 1 }
        ws(&mut i);
    }
    let st = |x: &str| { let mut t = b"s".to_vec(); t.extend(x.as_bytes()); t };
    let want = [b"{".to_vec(), st(&k), b":".to_vec(), b"[".to_vec(), st(&s), b",".to_vec(), st(&k), b"]".to_vec(), b"}".to_vec()];
    check(toks.len() == want.len(), "json structure");
    for (a, b) in toks.iter().zip(&want) { check_eq(a, b, "json token") }
}
pub fn f_join() {
    let n = pick(bound(6, 7));
    let v: Vec<String> = (0..n).map(|_| astr(2)).collect();
    let sep = astr(3);
    let mut want = String::new();
    for (i, x) in v.iter().enumerate() { if i > 0 { want.push_str(&sep) } want.push_str(x) }
    check_str(&d(f::join(v.iter(), &sep)), &want, "join");
    check_str(&d(f::join(&v, &*sep)), &want, "join by reference");
}
/// items and separators which are written in several pieces
pub fn f_join_chunks() {
    let n = pick(4);
    let v: Vec<crate::esc::Chunky> = (0..n).map(|_| chunky(2, 1)).collect();
    let sep = sstr(2, b", ");
    let mut want = String::new();
    for (i, x) in v.iter().enumerate() { if i > 0 { want.push_str(&sep) } want.push_str(&x.all()) }
    check_str(&d(f::join(v.iter(), &sep)), &want, "join of values written piece by piece");
}
/// every other filter on a value which is written in several pieces
pub fn f_chunks() {
    let c = chunky(3, 1);
    let s = c.all(); let b = s.as_bytes();
    match pick(9) {
        0 => check_eq(d(f::linebreaks(&c)).as_bytes(), &ref_linebreaks(b), "linebreaks does not depend on chunking"),
        1 => check_eq(d(f::linebreaksbr(&c)).as_bytes(), &ref_br(b), "linebreaksbr does not depend on chunking"),
        2 => check_eq(d(f::paragraphbreaks(&c)).as_bytes(), &ref_pbreaks(b), "paragraphbreaks does not depend on chunking"),
        3 => check_eq(f::title(&c).unwrap().as_bytes(), &ref_title(b), "title does not depend on chunking"),
        4 => check_eq(d(f::capitalize(&c)).as_bytes(), &ref_capital(b), "capitalize does not depend on chunking"),
        5 => check(f::wordcount(&c).unwrap() == ref_words(b), "wordcount does not depend on chunking"),
        6 => check_str(&d(f::indent(&c, 2)), &ref_indent(&s, 2), "indent does not depend on chunking"),
        7 => check_str(&d(f::center(&c, 5)), &ref_center(&s, 5), "center does not depend on chunking"),
        _ => { check_eq(d(f::upper(&c)).as_bytes(), &b.to_ascii_uppercase(), "upper does not depend on chunking"); check_eq(d(f::lower(&c)).as_bytes(), &b.to_ascii_lowercase(), "lower does not depend on chunking") }
    }
}
macro_rules! abs_of { ($($t:ty),*) => { $( { let v = u128v() as $t; if v != <$t>::MIN { let r = f::abs(v).unwrap(); check(r >= 0 && (r == v || r == v.wrapping_neg()), concat!("abs(", stringify!($t), ")")); } } )* } }
fn u128v() -> u128 { ((u64v() as u128) << 64) | u64v() as u128 }
pub fn f_abs() { abs_of!(i8, i16, i32, i64, i128, isize); }
macro_rules! isize_of { ($($t:ty),*) => { $( {
    let v = u128v() as $t;
    let fits = if <$t>::MIN == 0 { v as u128 <= isize::MAX as u128 } else { v as i128 >= isize::MIN as i128 && v as i128 <= isize::MAX as i128 };
    match f::into_isize(v) {
        Ok(x) => { check(fits && x as i128 == v as i128, concat!("into_isize(", stringify!($t), ") keeps the value")); reach("fits") }
        Err(e) => { check(!fits, concat!("into_isize(", stringify!($t), ") fails only if it does not fit")); check(matches!(e, askama::Error::Fmt(_)), "into_isize fails with a formatting error"); reach("error") }
    }
} )* } }
pub fn f_isize() { match pick(12) { 0 => { isize_of!(u8); }, 1 => { isize_of!(u16); }, 2 => { isize_of!(u32); }, 3 => { isize_of!(u64); }, 4 => { isize_of!(u128); }, 5 => { isize_of!(usize); }, 6 => { isize_of!(i8); }, 7 => { isize_of!(i16); }, 8 => { isize_of!(i32); }, 9 => { isize_of!(i64); }, 10 => { isize_of!(i128); }, _ => { isize_of!(isize); } } }
/// values of every shape serde knows
pub fn f_json_shapes() {
    use serde_json::{Map, Value};
    fn val(depth: usize) -> Value {
        let s = || sstr(1, b"a<&'\"");
        match pick(if depth == 0 { 5 } else { 8 }) {
            0 => Value::Null, 1 => Value::Bool(flag()), 2 => Value::from(-7i64), 3 => Value::from(1.5f64), 4 => Value::String(s()),
            5 => Value::Array((0..pick(3)).map(|_| val(depth - 1)).collect()),
            6 => { let mut m = Map::new(); for i in 0..pick(3) { m.insert(format!("{}{}", i, s()), val(depth - 1)); } Value::Object(m) }
            _ => Value::Array(vec![val(depth - 1)]),
        }
    }
    let v = val(bound(1, 2));
    let r = d(f::json(&v));
    emits(&r);
    check(no_markup(r.as_bytes()), "json output of any value is free of & < > '");
    let mut i = 0;
    let w = read(r.as_bytes(), &mut i);
    check(w.is_some(), "json output of any value is JSON");
    check(i == r.len(), "json output of any value is one JSON text");
    same(&v, &w.unwrap());
    /// what the text says
    enum J { Lit(Vec<u8>), S(Vec<u8>), A(Vec<J>), O(Vec<(Vec<u8>, J)>) }
    fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && matches!(b[*i], b' ' | b'\n' | b'\t' | b'\r') { *i += 1 } }
    fn read(b: &[u8], i: &mut usize) -> Option<J> {
        ws(b, i);
        let r = match *b.get(*i)? {
            b'"' => { let (s, n) = unjson(&b[*i..])?; *i += n; J::S(s) }
            b'[' => { *i += 1; let mut v = vec![]; ws(b, i); if b.get(*i) == Some(&b']') { *i += 1; return Some(J::A(v)) } loop { v.push(read(b, i)?); ws(b, i); match *b.get(*i)? { b',' => *i += 1, b']' => { *i += 1; break J::A(v) } _ => return None } } }
            b'{' => { *i += 1; let mut v = vec![]; ws(b, i); if b.get(*i) == Some(&b'}') { *i += 1; return Some(J::O(v)) } loop { ws(b, i); let (k, n) = unjson(b.get(*i..)?)?; *i += n; ws(b, i); if *b.get(*i)? != b':' { return None } *i += 1; v.push((k, read(b, i)?)); ws(b, i); match *b.get(*i)? { b',' => *i += 1, b'}' => { *i += 1; break J::O(v) } _ => return None } } }
            _ => { let a = *i; while *i < b.len() && !matches!(b[*i], b',' | b']' | b'}' | b' ' | b'\n') { *i += 1 } J::Lit(b[a..*i].to_vec()) }
        };
        Some(r)
    }
    fn same(v: &Value, w: &J) {
        match (v, w) {
            (Value::String(a), J::S(b)) => check_eq(b, a.as_bytes(), "json string"),
            (Value::Array(a), J::A(b)) => { check(a.len() == b.len(), "json list"); for (x, y) in a.iter().zip(b) { same(x, y) } }
            (Value::Object(a), J::O(b)) => { check(a.len() == b.len(), "json object"); for (k, x) in b { match a.iter().find(|(n, _)| eq(n.as_bytes(), k)) { Some((_, v)) => same(v, x), None => fail("json key") } } }
            (Value::Null, J::Lit(b)) => check_eq(b, b"null", "json null"),
            (Value::Bool(x), J::Lit(b)) => check_eq(b, if *x { b"true" } else { b"false" }, "json bool"),
            (Value::Number(n), J::Lit(b)) => check_eq(b, if n.is_f64() { b"1.5" } else { b"-7" }, "json number"),
            _ => fail("json of another kind"),
        }
    }
}
