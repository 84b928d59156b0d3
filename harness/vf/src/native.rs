//! Native side: replays recorded assignments against the natively compiled real code.
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct S { vals: Vec<u8>, ix: usize, emit: Vec<u8>, bad_domain: bool, allow_panic: bool, files: Vec<(String, Vec<u8>)> }
thread_local! { static ST: RefCell<S> = RefCell::new(S::default()); }
pub enum Stop { Fail(String), Assume, Incon(String) }
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
fn st<R>(f: impl FnOnce(&mut S) -> R) -> R { ST.with(|x| f(&mut x.borrow_mut())) }

#[no_mangle] unsafe extern "C" fn vf_var(mask: *const u64) -> u8 {
    let m = std::slice::from_raw_parts(mask, 4);
    st(|x| {
        let v = x.vals.get(x.ix).copied();
        x.ix += 1;
        let first = (0..256usize).find(|k| m[k >> 6] >> (k & 63) & 1 == 1).unwrap() as u8;
        match v { Some(v) => { if m[(v >> 6) as usize] >> (v & 63) & 1 == 0 { x.bad_domain = true; } v } None => first }
    })
}
#[no_mangle] extern "C" fn vf_is_symbolic() -> u32 { 0 }
#[no_mangle] extern "C" fn vf_concretize(v: u64) -> u64 { v }
#[no_mangle] extern "C-unwind" fn vf_assume(c: u32) { if c == 0 { std::panic::resume_unwind(Box::new(Stop::Assume)) } }
#[no_mangle] unsafe extern "C-unwind" fn vf_check(c: u32, p: *const u8, n: usize) { if c == 0 { std::panic::resume_unwind(Box::new(Stop::Fail(String::from_utf8_lossy(s(p, n)).into_owned()))) } }
#[no_mangle] unsafe extern "C-unwind" fn vf_fail(p: *const u8, n: usize) -> ! { std::panic::resume_unwind(Box::new(Stop::Fail(String::from_utf8_lossy(s(p, n)).into_owned()))) }
#[no_mangle] unsafe extern "C-unwind" fn vf_inconclusive(p: *const u8, n: usize) -> ! { std::panic::resume_unwind(Box::new(Stop::Incon(String::from_utf8_lossy(s(p, n)).into_owned()))) }
#[no_mangle] unsafe extern "C" fn vf_reach(_p: *const u8, _n: usize) {}
#[no_mangle] unsafe extern "C" fn vf_emit(p: *const u8, n: usize) { let b = s(p, n); st(|x| x.emit.extend_from_slice(b)) }
#[no_mangle] unsafe extern "C" fn vf_bytes_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> u32 { (s(p, n) == s(q, m)) as u32 }
#[no_mangle] extern "C" fn vf_allow_panic(n: u32) { st(|x| x.allow_panic = n != 0) }
#[no_mangle] unsafe extern "C" fn vf_file(n: *const u8, nl: usize, p: *const u8, pl: usize) {
    let name = String::from_utf8_lossy(s(n, nl)).into_owned();
    let root = std::env::var("VF_ROOT").expect("VF_ROOT");
    // files live below the scratch root; harnesses use the prefix /vfs for it
    let path = root + name.strip_prefix("/vfs").expect("file outside /vfs");
    if let Some(d) = std::path::Path::new(&path).parent() { std::fs::create_dir_all(d).unwrap(); }
    std::fs::write(&path, s(p, pl)).unwrap();
    let b = s(p, pl).to_vec();
    st(|x| x.files.push((path, b)));
}
#[no_mangle] unsafe extern "C" fn vf_env(n: *const u8, nl: usize, p: *const u8, pl: usize) {
    let root = std::env::var("VF_ROOT").expect("VF_ROOT");
    let v = String::from_utf8_lossy(s(p, pl)).replace("/vfs", &root);
    std::env::set_var(&*String::from_utf8_lossy(s(n, nl)), v);
}
#[no_mangle] extern "C" fn vf_tier() -> u32 { (std::env::var("VF_TIER").as_deref() == Ok("thorough")) as u32 }
#[no_mangle] unsafe extern "C" fn vf_debug(p: *const u8, n: usize) { if std::env::var("VF_DEBUG").is_ok() { eprintln!("DBG {}", String::from_utf8_lossy(s(p, n))); } }

fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// reads lines "<harness> <hexmodel>" on stdin; prints "<status> <hexemit> <label>" per line
pub fn main(table: &[(&str, fn())]) {
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| { *l2.lock().unwrap() = format!("panic at {} {}", i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())), i.payload_as_str().unwrap_or("")); }));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let (Some(h), m) = (it.next(), it.next().unwrap_or("")) else { continue };
        let Some((_, f)) = table.iter().find(|t| t.0 == h) else { println!("unknown-harness"); continue };
        let f = *f;
        let m = unhex(m);
        // fresh thread per run: thread-locals start from scratch as in the symbolic run
        let (status, emit, label) = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            st(|x| { *x = S { vals: m, ..S::default() } });
            let r = catch_unwind(AssertUnwindSafe(f));
            for (f, _) in st(|x| std::mem::take(&mut x.files)) { let _ = std::fs::remove_file(f); }
            let (emit, bad, allow) = st(|x| (std::mem::take(&mut x.emit), x.bad_domain, x.allow_panic));
            let (s, l) = match r {
                Ok(()) => ("done", String::new()),
                Err(e) => match e.downcast::<Stop>() {
                    Ok(s) => match *s { Stop::Fail(l) => ("fail", l), Stop::Assume => ("assume", String::new()), Stop::Incon(l) => ("incon", l) },
                    Err(_) => if allow { ("panic", String::new()) } else { ("fail", String::from("panic")) },
                },
            };
            (if bad { "baddomain" } else { s }, emit, l)
        }).unwrap().join().unwrap();
        let label = if label == "panic" { loc.lock().unwrap().clone() } else { label };
        let mut o = out.lock();
        writeln!(o, "{status} {} {}", hex(&emit), label.replace('\n', " ")).unwrap();
        o.flush().unwrap();
    }
}
