//! Harness API. Under the symbolic engine the `vf_*` functions are provided by the engine;
//! natively (feature "native") they read a recorded assignment.
#[cfg(feature = "native")]
pub mod native;

extern "C" {
    fn vf_var(mask: *const u64) -> u8;
    fn vf_is_symbolic() -> u32;
    fn vf_concretize(v: u64) -> u64;
    fn vf_assume(c: u32);
    fn vf_check(c: u32, p: *const u8, n: usize);
    fn vf_fail(p: *const u8, n: usize) -> !;
    fn vf_inconclusive(p: *const u8, n: usize) -> !;
    fn vf_reach(p: *const u8, n: usize);
    fn vf_emit(p: *const u8, n: usize);
    fn vf_bytes_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> u32;
    fn vf_allow_panic(n: u32);
    fn vf_file(n: *const u8, nl: usize, p: *const u8, pl: usize);
    fn vf_env(n: *const u8, nl: usize, p: *const u8, pl: usize);
    fn vf_tier() -> u32;
    fn vf_debug(p: *const u8, n: usize);
}

/// a fresh symbolic byte whose domain is the given set (256-bit mask)
pub fn var_mask(m: &[u64; 4]) -> u8 { unsafe { vf_var(m.as_ptr()) } }
pub fn mask_of(set: &[u8]) -> [u64; 4] { let mut m = [0u64; 4]; for &b in set { m[(b >> 6) as usize] |= 1 << (b & 63); } m }
/// any byte out of a set
pub fn one_of(set: &[u8]) -> u8 { var_mask(&mask_of(set)) }
/// any byte in lo..=hi
pub fn range(lo: u8, hi: u8) -> u8 { let mut m = [0u64; 4]; let mut i = lo as usize; while i <= hi as usize { m[i >> 6] |= 1 << (i & 63); i += 1; } var_mask(&m) }
pub fn byte() -> u8 { var_mask(&[!0; 4]) }
/// any ASCII byte
pub fn ascii() -> u8 { range(0, 127) }
/// symbolic selector in 0..n, left symbolic
pub fn sel(n: u8) -> u8 { range(0, n - 1) }
/// selector in 0..n, concretised (one path per feasible value)
pub fn pick(n: usize) -> usize { if n == 1 { return 0; } conc(sel(n as u8) as usize) }
pub fn conc(v: usize) -> usize { unsafe { vf_concretize(v as u64) as usize } }
pub fn flag() -> bool { pick(2) == 1 }
/// 0 quick, 1 thorough
pub fn tier() -> usize { unsafe { vf_tier() as usize } }
/// bound depending on the tier
pub fn bound(quick: usize, thorough: usize) -> usize { if tier() == 0 { quick } else { thorough } }
pub fn symbolic() -> bool { unsafe { vf_is_symbolic() == 1 } }
pub fn assume(c: bool) { unsafe { vf_assume(c as u32) } }
pub fn check(c: bool, label: &str) { unsafe { vf_check(c as u32, label.as_ptr(), label.len()) } }
pub fn fail(label: &str) -> ! { unsafe { vf_fail(label.as_ptr(), label.len()) } }
pub fn inconclusive(label: &str) -> ! { unsafe { vf_inconclusive(label.as_ptr(), label.len()) } }
pub fn reach(label: &str) { unsafe { vf_reach(label.as_ptr(), label.len()) } }
pub fn emit(b: &[u8]) { unsafe { vf_emit(b.as_ptr(), b.len()) } }
pub fn emits(s: &str) { emit(s.as_bytes()) }
pub fn emit_n(n: u64) { emit(&n.to_le_bytes()) }
pub fn eq(a: &[u8], b: &[u8]) -> bool { unsafe { vf_bytes_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) != 0 } }
/// assert that two byte strings are equal, decided as one solver query
pub fn check_eq(a: &[u8], b: &[u8], label: &str) { emit(a); check(eq(a, b), label) }
pub fn check_str(a: &str, b: &str, label: &str) { check_eq(a.as_bytes(), b.as_bytes(), label) }
pub fn allow_panic(on: bool) { unsafe { vf_allow_panic(on as u32) } }
pub fn file(name: &str, content: &[u8]) { unsafe { vf_file(name.as_ptr(), name.len(), content.as_ptr(), content.len()) } }
pub fn env(k: &str, v: &str) { unsafe { vf_env(k.as_ptr(), k.len(), v.as_ptr(), v.len()) } }
pub fn debug(s: &[u8]) { unsafe { vf_debug(s.as_ptr(), s.len()) } }
pub fn u32v() -> u32 { u32::from_le_bytes([byte(), byte(), byte(), byte()]) }
pub fn u64v() -> u64 { u64::from_le_bytes([byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()]) }

/// a string of exactly n symbolic ASCII bytes taken from `set`
pub fn str_of(n: usize, set: &[u8]) -> String { let m = mask_of(set); let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(var_mask(&m)); } unsafe { String::from_utf8_unchecked(v) } }
/// append one symbolic character out of an alphabet of characters with equal UTF-8 length
pub fn push_char(out: &mut Vec<u8>, alphabet: &[char]) {
    let l = alphabet[0].len_utf8();
    let c = sel(alphabet.len() as u8);
    let mut tab: [[u8; 256]; 4] = [[0; 256]; 4];
    for (i, ch) in alphabet.iter().enumerate() { let mut b = [0u8; 4]; ch.encode_utf8(&mut b); for k in 0..l { tab[k][i] = b[k]; } }
    for t in tab.iter().take(l) { out.push(t[c as usize]); }
}

/// append one arbitrary symbolic character whose UTF-8 encoding has `len` bytes
/// (len 3 leaves out U+0800..0FFF and U+D000..DFFF, len 4 U+10000..3FFFF and U+100000.., which have restricted second bytes)
pub fn push_utf8(out: &mut Vec<u8>, len: usize) {
    match len {
        1 => out.push(range(0, 127)),
        2 => { out.push(range(0xc2, 0xdf)); out.push(range(0x80, 0xbf)); }
        3 => { let mut m = [0u64; 4]; for i in 0xe1..0xf0usize { if i != 0xed { m[i >> 6] |= 1 << (i & 63); } } out.push(var_mask(&m)); for _ in 0..2 { out.push(range(0x80, 0xbf)); } }
        _ => { out.push(range(0xf1, 0xf3)); for _ in 0..3 { out.push(range(0x80, 0xbf)); } }
    }
}
/// a string of at most `max` characters, each of 1..=`len` UTF-8 bytes
pub fn ustr(max: usize, len: usize) -> String { let n = pick(max + 1); let mut v = vec![]; for _ in 0..n { let l = 1 + pick(len); push_utf8(&mut v, l); } unsafe { String::from_utf8_unchecked(v) } }
/// a string of at most `max` ASCII bytes
pub fn astr(max: usize) -> String { let n = pick(max + 1); let mut v = vec![]; for _ in 0..n { v.push(ascii()); } unsafe { String::from_utf8_unchecked(v) } }
/// a string of at most `max` bytes out of `set`
pub fn sstr(max: usize, set: &[u8]) -> String { let n = pick(max + 1); str_of(n, set) }

/// declares `vf_h_<name>` entry points and, natively, the dispatch table
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod __vf_entries { $( #[export_name = concat!("vf_h_", stringify!($name))] pub extern "C" fn $name() { super::$name() } )* }
        pub static VF_TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
