//! The same specifications around symbolic windows inside of long texts: thresholds and buffer sizes are not special.
use vf::*;
use askama::{filters as f, Html, MarkupDisplay, Text};
use crate::esc::ref_html;
use crate::filt::*;

const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025];
const TAIL: &[usize] = &[0, 1, 2, 8, 16, 64, 200];
fn len_of(t: &[usize]) -> usize { t[pick(t.len())] }
/// filler + symbolic middle + filler
fn padded(fill: &str, max: usize, set: &[u8]) -> String {
    let (p, q) = (len_of(LENS), len_of(TAIL));
    let mut s = fill.repeat(p);
    s.push_str(&sstr(max, set));
    s.push_str(&fill.repeat(q));
    s
}
pub fn esc_long() {
    let fill = ["x", "<", "é"][pick(3)];
    let s = padded(fill, 2, b"a<>&\"'\n\x00");
    let w = ref_html(s.as_bytes());
    check_eq(askama_escape::escape(&s, Html).to_string().as_bytes(), &w, "escape of a long text");
    check_eq(MarkupDisplay::new_unsafe(&s, Html).to_string().as_bytes(), &w, "MarkupDisplay of a long text");
    check_str(&MarkupDisplay::new_unsafe(&s, Text).to_string(), &s, "text escaper on a long text");
    check_str(&MarkupDisplay::new_safe(&s, Html).to_string(), &s, "safe long text");
}
pub fn esc_runs() {
    // any two special characters at any distance up to 254, with anything of up to 17 bytes behind
    let n = pick(bound(131, 255));
    let mut s = sstr(1, b"<>&\"'k"); s.push_str(&"z".repeat(n)); s.push_str(&sstr(1, b"<>&\"'k")); s.push_str(&"z".repeat(pick(18)));
    check_eq(askama_escape::escape(&s, Html).to_string().as_bytes(), &ref_html(s.as_bytes()), "distance between special characters");
}
pub fn f_long_layout() {
    let fill = ["x", "é", "x y\n"][pick(3)];
    let op = pick(6);
    let s = padded(fill, if op == 0 || op == 2 { 1 } else { 2 }, b"a \n\t");
    match op {
        0 => { let n = [s.len(), s.len().saturating_sub(1), s.len() + 1, s.len() / 2, s.len().saturating_sub(3), 255, 256][pick(7)]; check_str(&f::truncate(&s, n).unwrap().to_string(), &ref_truncate(&s, n), "truncate of a long text") }
        1 => { let w = [1, 8, 16, 40, 9999][pick(5)]; if w < 9999 || s.len() < 40 { check_str(&f::indent(&s, w).unwrap().to_string(), &ref_indent(&s, w), "indent of a long text") } }
        2 => { let w = s.chars().count() + [0, 1, 2, 3, 100, 333][pick(6)]; check_str(&f::center(&s, w).unwrap().to_string(), &ref_center(&s, w), "center of a long text") }
        3 => check_eq(f::trim(&s).unwrap().to_string().as_bytes(), ref_trim(s.as_bytes()), "trim of a long text"),
        4 => { let v = vec![&*s; pick(4)]; let r = f::join(&v, "--").unwrap().to_string(); check_str(&r, &v.join("--"), "join of long texts") }
        _ => check(f::wordcount(&s).unwrap() == ref_words(s.as_bytes()), "wordcount of a long text"),
    }
}
pub fn f_long_case() {
    let s = padded(["x", "Yz ", "Q"][pick(3)], 2, b"aZ \n1");
    let b = s.as_bytes();
    match pick(4) {
        0 => check_eq(f::title(&s).unwrap().as_bytes(), &ref_title(b), "title of a long text"),
        1 => check_eq(f::capitalize(&s).unwrap().to_string().as_bytes(), &ref_capital(b), "capitalize of a long text"),
        2 => check_eq(f::upper(&s).unwrap().to_string().as_bytes(), &b.to_ascii_uppercase(), "upper of a long text"),
        _ => check_eq(f::lower(&s).unwrap().to_string().as_bytes(), &b.to_ascii_lowercase(), "lower of a long text"),
    }
}
pub fn f_long_breaks() {
    let s = padded(["x", "y\n", "y\n\n"][pick(3)], 3, b"a\n<");
    let b = s.as_bytes();
    match pick(3) {
        0 => check_eq(f::linebreaks(&s).unwrap().to_string().as_bytes(), &ref_linebreaks(b), "linebreaks of a long text"),
        1 => check_eq(f::linebreaksbr(&s).unwrap().to_string().as_bytes(), &ref_br(b), "linebreaksbr of a long text"),
        _ => check_eq(f::paragraphbreaks(&s).unwrap().to_string().as_bytes(), &ref_pbreaks(b), "paragraphbreaks of a long text"),
    }
}
pub fn f_long_url() {
    let s = padded(["x", "/", "é"][pick(3)], 1, b"a/ ~%_");
    check_eq(f::urlencode(&s).unwrap().to_string().as_bytes(), &ref_url(s.as_bytes(), true), "urlencode of a long text");
    check_eq(f::urlencode_strict(&s).unwrap().to_string().as_bytes(), &ref_url(s.as_bytes(), false), "urlencode_strict of a long text");
}
pub fn f_long_json() {
    let s = padded(["x", "<", "\n"][pick(3)], 2, b"a<'&>\"\\\n");
    let r = f::json(&s).unwrap().to_string();
    check(no_markup(r.as_bytes()), "json of a long text is free of & < > '");
    match unjson(r.as_bytes()) { Some((v, n)) => { check(n == r.len(), "one token"); check_eq(&v, s.as_bytes(), "json of a long text decodes to it") } None => fail("json of a long text is not a JSON string") }
}
/// the case filters on characters outside ASCII: Rust's own case mapping, character by character
pub fn f_case_unicode() {
    const A: &[char] = &['é', 'É', 'ß', 'ǆ', 'ǅ', 'ŉ', 'İ', 'ﬁ', 'Ж', '京', '\u{a0}', '\u{3000}', '\u{85}', 'a', 'B', ' ', '\u{200b}', '𐐨'];
    let n = pick(4);
    let s: String = (0..n).map(|_| A[pick(A.len())]).collect();
    let ws = |c: char| matches!(c, ' ' | '\u{a0}' | '\u{3000}' | '\u{85}');
    let (mut t, mut cap, mut first, mut words, mut inw) = (String::new(), String::new(), true, 0, false);
    for (i, c) in s.chars().enumerate() {
        if ws(c) { t.push(c); first = true; inw = false } else {
            if first { if c.is_uppercase() { t.push(c) } else { t.extend(c.to_uppercase()) } } else if c.is_lowercase() { t.push(c) } else { t.extend(c.to_lowercase()) }
            first = false; if !inw { words += 1 } inw = true;
        }
        if i == 0 { cap.extend(c.to_uppercase()) } else { cap.extend(c.to_lowercase()) }
    }
    check_str(&f::title(&s).unwrap(), &t, "title outside of ASCII");
    check_str(&f::capitalize(&s).unwrap().to_string(), &cap, "capitalize outside of ASCII");
    check(f::wordcount(&s).unwrap() == words, "wordcount outside of ASCII");
    let tr: Vec<char> = s.chars().collect();
    let (mut i, mut j) = (0, tr.len()); while i < j && ws(tr[i]) { i += 1 } while j > i && ws(tr[j - 1]) { j -= 1 }
    check_str(&f::trim(&s).unwrap().to_string(), &tr[i..j].iter().collect::<String>(), "trim outside of ASCII");
    let up: String = s.chars().flat_map(|c| c.to_uppercase()).collect();
    check_str(&f::upper(&s).unwrap().to_string(), &up, "upper outside of ASCII");
}
/// the documented limits: widths, and for indent texts, of 10000 and more
pub fn f_limits() {
    const L: &[usize] = &[9_998, 9_999, 10_000, 10_001, 65_536, 1 << 40];
    match pick(3) {
        0 => { let w = L[pick(L.len())]; let mut s = String::from("a\nb"); s.push_str(&sstr(1, b"\nc")); check_str(&f::indent(&s, w).unwrap().to_string(), &*if w >= 10_000 { s.clone() } else { ref_indent(&s, w) }, "indent by a large width"); }
        1 => { let w = L[pick(L.len())]; let mut s = String::from("é"); s.push_str(&sstr(1, b" c")); check_str(&f::center(&s, w).unwrap().to_string(), &*if w >= 10_000 { s.clone() } else { ref_center(&s, w) }, "center in a large width"); }
        _ => { let n = L[pick(4)] - 2; let mut s = "x".repeat(n); s.push('\n'); s.push_str(&str_of(1, b"a\n")); check_str(&f::indent(&s, 2).unwrap().to_string(), &*if s.len() >= 10_000 { s.clone() } else { ref_indent(&s, 2) }, "indent of a very long text"); }
    }
}
