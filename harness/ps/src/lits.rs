//! Literals.
use vf::*;
use crate::ast::*;
fn tpl(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked([b"{{ ", b, b" }}"].concat()) } }
/// a number literal of the Rust reference (without tuple index quirks)
fn rust_num(b: &[u8]) -> bool {
    let n = b.len();
    let digits = |mut i: usize, radix: u8| -> Option<usize> {
        let mut any = false;
        while i < n { let c = b[i]; let ok = match radix { 2 => c == b'0' || c == b'1', 8 => (b'0'..=b'7').contains(&c), 10 => c.is_ascii_digit(), _ => c.is_ascii_hexdigit() }; if ok { any = true } else if c != b'_' { break } i += 1 }
        if any { Some(i) } else { None }
    };
    let int_suffix = |i: usize| -> bool { matches!(&b[i..], b"" | b"i8" | b"i16" | b"i32" | b"i64" | b"i128" | b"isize" | b"u8" | b"u16" | b"u32" | b"u64" | b"u128" | b"usize") };
    let fl = |i: usize| -> bool { matches!(&b[i..], b"" | b"f32" | b"f64") };
    if n > 1 && b[0] == b'0' && matches!(b[1], b'b' | b'o' | b'x') {
        return match digits(2, match b[1] { b'b' => 2, b'o' => 8, _ => 16 }) { Some(i) => int_suffix(i), None => false };
    }
    if n == 0 || !b[0].is_ascii_digit() { return false }
    let mut i = digits(0, 10).unwrap();
    if int_suffix(i) || fl(i) { return true }
    if b[i] == b'.' { if i + 1 < n && b[i + 1].is_ascii_digit() { i = digits(i + 1, 10).unwrap() } else { return false } }
    if fl(i) { return true }
    if b[i] == b'e' || b[i] == b'E' { i += 1; if i < n && (b[i] == b'+' || b[i] == b'-') { i += 1 } return match digits(i, 10) { Some(i) => fl(i), None => false } }
    false
}
pub fn lit_num() {
    let n = 1 + pick(bound(6, 8));
    let v: Vec<u8> = (0..n).map(|_| one_of(b"0129_.eE+-xboafiu8364")).collect();
    num(v);
}
pub fn lit_num_suffix() {
    let mut v = [&b"1"[..], b"0x1f", b"0b1", b"0o7", b"1.5", b"1e3", b"1_0", b"0"][pick(8)].to_vec();
    match pick(3) { 0 => { v.push(one_of(b"iuf")); let n = pick(4); for _ in 0..n { v.push(one_of(b"iuf12346_8sze")) } } 1 => { v.extend([&b"isize"[..], b"usize", b"i128", b"u128", b"f64", b"f32", b"i16"][pick(7)]); if flag() { v.push(one_of(b"_1s")) } } _ => { v.push(one_of(b"e._")); v.push(one_of(b"+-_1")); v.push(one_of(b"12_f.e")) } }
    num(v);
}
fn num(v: Vec<u8>) {
    let r = only_expr(&tpl(&v));
    if let Some(r) = &r { emit(r) }
    let whole = [b"num:", &v[..]].concat();
    if rust_num(&v) { reach("number"); match r { Some(r) => check(eq(&r, &whole), "a number literal is taken whole"), None => fail("a number literal is rejected") } }
    else if let Some(r) = r { check(!(r.len() == whole.len() && eq(&r, &whole)), "what is taken as a number is a Rust number literal"); }
}
pub fn lit_str() {
    let n = pick(bound(7, 9));
    let v: Vec<u8> = (0..n).map(|_| one_of(b"\"\\ a{}%#'\n")).collect();
    // a string ends at the first quote which is not escaped
    let mut i = 0; while i < v.len() && v[i] != b'"' { i += if v[i] == b'\\' { 2 } else { 1 } }
    let s = tpl(&[b"\"", &v[..], b"\""].concat());
    let r = only_expr(&s);
    if let Some(r) = &r { emit(r) }
    if i == v.len() { reach("string"); match r { Some(r) => check(eq(&r, &[b"str:", &v[..]].concat()), "a string literal is taken verbatim"), None => fail("a string literal is rejected") } }
}
pub fn lit_str_utf8() {
    let u = ustr(bound(4, 5), 4);
    if u.contains('"') || u.contains('\\') { return }
    match only_expr(&tpl(&[b"\"", u.as_bytes(), b"\""].concat())) { Some(r) => check_eq(&r, &[b"str:", u.as_bytes()].concat(), "a string literal is taken verbatim (UTF-8)"), None => fail("a string literal is rejected (UTF-8)") }
}
fn chr(v: &[u8], valid: bool) {
    let r = only_expr(&tpl(&[b"'", v, b"'"].concat()));
    if let Some(r) = &r { emit(r) }
    let whole = [b"chr:", v].concat();
    match (valid, r) {
        (true, Some(r)) => { reach("char"); check(eq(&r, &whole), "a character literal is taken verbatim") }
        (true, None) => fail("a character literal is rejected"),
        (false, Some(r)) => check(!(r.len() == whole.len() && eq(&r, &whole)), "an invalid character literal is accepted"),
        (false, None) => reach("rejected"),
    }
}
pub fn lit_char() {
    match pick(5) {
        0 => { let n = pick(4); let v: Vec<u8> = (0..n).map(|_| ascii()).collect(); let valid = match &v[..] { [c] => !matches!(c, b'\'' | b'\\' | b'\n' | b'\r' | b'\t'), [b'\\', c] => matches!(c, b'n' | b'r' | b't' | b'\\' | b'0' | b'\'' | b'"'), _ => false }; chr(&v, valid) }
        1 => { let u = ustr(1, 4); if u.len() > 1 { chr(u.as_bytes(), true) } }
        2 => { let (a, b) = (ascii(), ascii()); chr(&[b'\\', b'x', a, b], (b'0'..=b'7').contains(&a) && b.is_ascii_hexdigit()) }
        3 => { let n = pick(5); let d: Vec<u8> = (0..n).map(|_| one_of(b"019afADFg_")).collect(); uni(&d) }
        _ => { let n = 4 + pick(4); let d: Vec<u8> = (0..n).map(|i| if i < 4 { one_of(b"0178dDeE") } else { one_of(b"0F") }).collect(); uni(&d) }
    }
}
fn uni(d: &[u8]) {
    let v = [b"\\u{", d, b"}"].concat();
    if d.contains(&b'_') { return } // Rust allows underscores here, the template syntax does not document them
    let mut x = 0u32; let mut ok = !d.is_empty() && d.len() <= 6;
    for &c in d { match (c as char).to_digit(16) { Some(k) => x = (x << 4) | k, None => { ok = false; break } } }
    chr(&v, ok && x <= 0x10ffff && !(0xd800..=0xdfff).contains(&x));
}
