mod exec; mod expr; mod ext; mod ir; mod mem; mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Out { st: Stats, z: z3::Stats, viol: Vec<Violation>, leaves: Vec<Leaf>, incon: BTreeMap<String, u64>, incon_models: Vec<(String, Vec<u8>)>, reach: BTreeMap<String, u64>, used: BTreeSet<u32>, left: u64, prof: BTreeMap<u32, u64> }

fn eval_emits(w: &mut Worker, st: &State) -> Vec<u8> {
    let mut chunks: Vec<Vec<u8>> = vec![];
    let mut cur = st.emits.clone();
    loop {
        let nx = match &*cur { EmitL::Nil => break, EmitL::Cons(d, s, n) => {
            let mut v = d.clone();
            if let Some(s) = s { for (i, e) in s.iter().enumerate() { if *e != 0 { v[i] = w.x.eval(*e, &st.path.model) as u8; } } }
            chunks.push(v);
            n.clone()
        } };
        cur = nx;
    }
    chunks.reverse();
    chunks.concat()
}

fn worker_run(w: &mut Worker, entry: u32, sh: &Arc<Shared>) -> Out {
    w.sh = Some(sh.clone());
    w.st = Stats::default();
    w.z.st = Default::default();
    w.violations.clear(); w.leaves.clear(); w.incon.clear(); w.incon_models.clear(); w.reach.clear(); w.used.clear(); w.profc.clear();
    w.stack.clear();
    w.audited.clear(); w.icache.clear();
    for (i, f) in w.funcs.iter_mut().enumerate() { let _ = i; *f = None; }
    let mut nleaf = 0u64;
    loop {
        let mut st = match w.stack.pop() {
            Some(s) => s,
            None => {
                let mut q = sh.q.lock().unwrap();
                let job = loop {
                    if sh.stop.load(Ordering::Relaxed) { break None; }
                    if let Some(j) = q.pop_front() { break Some(j); }
                    let idle = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == sh.workers { sh.stop.store(true, Ordering::SeqCst); sh.cv.notify_all(); break None; }
                    let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap();
                    q = g;
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                };
                drop(q);
                let Some(job) = job else { break };
                match w.init_state(entry) { Ok(mut s) => { s.dec = job.dec; s.path.model = std::rc::Rc::new(job.model); s } Err(e) => { *w.incon.entry(format!("{e:?}")).or_insert(0) += 1; continue; } }
            }
        };
        if Instant::now() > sh.deadline || sh.stop.load(Ordering::Relaxed) || sh.paths.load(Ordering::Relaxed) > sh.max_paths { w.stack.push(st); sh.stop.store(true, Ordering::SeqCst); sh.cv.notify_all(); break; }
        let i0 = st.icount;
        let r = w.run(&mut st);
        w.st.insts += st.icount - i0;
        w.st.paths += 1;
        sh.paths.fetch_add(1, Ordering::Relaxed);
        // the engine checks itself: every decision was taken once, and the model lies on the path
        let r = if !matches!(r, End::Done | End::Panic(_) | End::Assumed) { r } else if st.cur < st.dec.len() { End::Incon("engine: decisions left over".into()) } else if !w.consistent(&st.path) { End::Incon("engine: the model is not on its path".into()) } else { r };
        let nv = st.path.nvars;
        let model: Vec<u8> = st.path.model[..nv].to_vec();
        let mut leaf = None;
        match r {
            End::Done => { w.st.done += 1; leaf = Some("done"); }
            End::Assumed => w.st.assumed += 1,
            End::Panic(_) => { w.st.panics += 1; leaf = Some("panic"); }
            End::Incon(s) => {
                if std::env::var("SYMEX_BT").is_ok() { eprintln!("-- {s}"); for f in st.frames.iter().rev().take(8) { let b = &f.f.blocks[f.blk as usize]; eprintln!("   {} blk{} pc{} {:?}", f.f.name, f.blk, f.pc, b.insts.get(f.pc as usize)); } } w.st.incon += 1; *w.incon.entry(s.clone()).or_insert(0) += 1; if w.incon_models.len() < 2000 { w.incon_models.push((s, model.clone())); } }
            End::Viol(l) => {
                if std::env::var("SYMEX_BT").is_ok() { eprintln!("-- {l}"); for f in st.frames.iter().rev().take(8) { let b = &f.f.blocks[f.blk as usize]; eprintln!("   {} blk{} pc{} {:?}", f.f.name, f.blk, f.pc, b.insts.get(f.pc as usize)); } } if w.violations.iter().filter(|v| v.label == l).count() < 3 && w.violations.len() < 40 { w.violations.push(Violation { label: l, model: model.clone(), kind: "" }); } else { w.st.covered += 1; } }
            End::Stop => {}
        }
        if let Some(s) = leaf {
            nleaf += 1;
            // keep a spread of leaves: the first ones, then geometrically rarer ones
            if w.leaves.len() < w.max_leaves || nleaf % 97 == 0 && w.leaves.len() < 3 * w.max_leaves { let emit = eval_emits(w, &st); w.leaves.push(Leaf { model, emit, status: s }); }
        }
    }
    let mut o = Out { st: w.st.clone(), z: w.z.st.clone(), left: w.stack.len() as u64, ..Default::default() };
    o.viol = std::mem::take(&mut w.violations);
    o.leaves = std::mem::take(&mut w.leaves);
    o.incon = w.incon.clone(); o.incon_models = w.incon_models.clone(); o.reach = w.reach.clone();
    o.used = w.used.iter().copied().collect();
    o.prof = w.profc.iter().map(|(k, v)| (*k, *v)).collect();
    w.stack.clear();
    o
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = None; let mut out = None; let mut jobs = 8usize; let mut hs: Vec<String> = vec![]; let mut budget = 60.0f64; let mut max_insts = 60_000_000u64; let mut prof = false; let mut leaves = 60usize; let mut max_paths = u64::MAX; let mut list = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--out" => { out = Some(args[i + 1].clone()); i += 1; }
            "--jobs" => { jobs = args[i + 1].parse().unwrap(); i += 1; }
            "--budget" => { budget = args[i + 1].parse().unwrap(); i += 1; }
            "--max-insts" => { max_insts = args[i + 1].parse().unwrap(); i += 1; }
            "--max-paths" => { max_paths = args[i + 1].parse().unwrap(); i += 1; }
            "--leaves" => { leaves = args[i + 1].parse().unwrap(); i += 1; }
            "--prof" => prof = true,
            "--tier" => { ext::TIER.store(args[i + 1].parse().unwrap(), Ordering::Relaxed); i += 1; }
            "--list" => list = Some(()),
            a if ll.is_none() => ll = Some(a.to_string()),
            a => hs.push(a.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(String::from_utf8_lossy(&std::fs::read(ll.expect("module")).expect("read module")).into_owned().into_boxed_str());
    let m = match ir::Module::load(text, &["gettid", "__cxa_thread_atexit_impl_"]) { Ok(m) => m, Err(e) => { eprintln!("module load: {e}"); std::process::exit(3); } };
    let m: &'static ir::Module = Box::leak(Box::new(m));
    let load_s = t0.elapsed().as_secs_f64();
    if list.is_some() { for f in &m.fns { if f.name.starts_with("vf_h_") { println!("{}", &f.name[5..]); } } return; }
    let mut res = String::from("{\n");
    res.push_str(&format!("\"z3\": {}, \"load_s\": {:.3}, \"harnesses\": [\n", js(&z3::version()), load_s));
    let mut first = true;
    // persistent worker threads would keep arenas alive between harnesses; a fresh set per harness bounds memory
    for hspec in &hs {
        let (h, hb) = match hspec.split_once(':') { Some((h, b)) => (h, b.parse().unwrap_or(budget)), None => (hspec.as_str(), budget) };
        let Some(&entry) = m.fn_ix.get(&format!("vf_h_{h}")) else { eprintln!("no harness {h}"); std::process::exit(3); };
        let t1 = Instant::now();
        let sh = Arc::new(Shared { q: Mutex::new(Default::default()), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), workers: jobs, deadline: Instant::now() + Duration::from_secs_f64(hb), max_insts, max_paths, paths: AtomicU64::new(0) });
        sh.q.lock().unwrap().push_back(Job { dec: vec![], model: vec![] });
        let mut th = vec![];
        for _ in 0..jobs {
            let sh = sh.clone();
            th.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let mut w = Worker::new(m); w.prof = prof; w.max_leaves = leaves; worker_run(&mut w, entry, &sh) }).unwrap());
        }
        let mut t = Out::default();
        let mut crashed = 0;
        for x in th {
            let Ok(o) = x.join() else { crashed += 1; sh.stop.store(true, Ordering::SeqCst); continue };
            let (a, b) = (&mut t.st, &o.st);
            macro_rules! add { ($($f:ident),*) => { $( a.$f += b.$f; )* } }
            add!(paths, done, assumed, panics, incon, forks, decisions, insts, checks, checks_const, checks_z3, audits, dom_decisions, unknown, donated, covered);
            t.z.queries += o.z.queries; t.z.sat += o.z.sat; t.z.unsat += o.z.unsat; t.z.unknown += o.z.unknown; t.z.nanos += o.z.nanos;
            t.viol.extend(o.viol); t.leaves.extend(o.leaves); t.incon_models.extend(o.incon_models);
            for (k, v) in o.incon { *t.incon.entry(k).or_insert(0) += v; }
            for (k, v) in o.reach { *t.reach.entry(k).or_insert(0) += v; }
            for (k, v) in o.prof { *t.prof.entry(k).or_insert(0) += v; }
            t.used.extend(o.used);
            t.left += o.left;
        }
        t.left += sh.q.lock().unwrap().len() as u64;
        let wall = t1.elapsed().as_secs_f64();
        eprintln!("[{h}] {:.1}s paths={} done={} assumed={} panics={} incon={} viol={} forks={} dec={} insts={:.1}M checks={} (z3 {}, const {}) z3q={} ({:.1}s) audits={} left={} crashed={}", wall, t.st.paths, t.st.done, t.st.assumed, t.st.panics, t.st.incon, t.viol.len(), t.st.forks, t.st.decisions, t.st.insts as f64 / 1e6, t.st.checks, t.st.checks_z3, t.st.checks_const, t.z.queries, t.z.nanos as f64 / 1e9, t.st.audits, t.left, crashed);
        for (k, v) in t.incon.iter().take(6) { eprintln!("    inconclusive x{v}: {k}"); }
        { let mut seen = BTreeSet::new(); for v in &t.viol { if seen.insert(v.label.clone()) && seen.len() < 8 { eprintln!("    VIOL {}: {:?}", v.label, v.model); } } }
        for (k, v) in &t.reach { eprintln!("    reach {k}: {v}"); }
        if prof { let mut p: Vec<_> = t.prof.iter().collect(); p.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, v) in p.iter().take(30) { eprintln!("    {v:>10} {}", m.fns[**k as usize].name); } }
        if !first { res.push_str(",\n"); }
        first = false;
        let s = &t.st;
        res.push_str(&format!("{{\"name\": {}, \"wall_s\": {:.3}, \"complete\": {}, \"crashed\": {}, \"paths\": {}, \"done\": {}, \"assumed\": {}, \"panics\": {}, \"inconclusive\": {}, \"forks\": {}, \"decisions\": {}, \"insts\": {}, \"checks\": {}, \"checks_const\": {}, \"checks_z3\": {}, \"audits\": {}, \"dom_decisions\": {}, \"z3_queries\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_unknown\": {}, \"z3_s\": {:.3}, \"left\": {},\n",
            js(h), wall, t.left == 0 && crashed == 0 && t.st.incon == 0, crashed, s.paths, s.done, s.assumed, s.panics, s.incon, s.forks, s.decisions, s.insts, s.checks, s.checks_const, s.checks_z3, s.audits, s.dom_decisions, t.z.queries, t.z.sat, t.z.unsat, t.z.unknown, t.z.nanos as f64 / 1e9, t.left));
        res.push_str(&format!(" \"violations\": [{}],\n", t.viol.iter().map(|v| format!("{{\"label\": {}, \"model\": \"{}\"}}", js(&v.label), hex(&v.model))).collect::<Vec<_>>().join(", ")));
        res.push_str(&format!(" \"leaves\": [{}],\n", t.leaves.iter().map(|v| format!("{{\"model\": \"{}\", \"emit\": \"{}\", \"status\": \"{}\"}}", hex(&v.model), hex(&v.emit), v.status)).collect::<Vec<_>>().join(", ")));
        res.push_str(&format!(" \"incon\": {{{}}},\n", t.incon.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ")));
        res.push_str(&format!(" \"incon_models\": [{}],\n", t.incon_models.iter().map(|(k, v)| format!("{{\"why\": {}, \"model\": \"{}\"}}", js(k), hex(v))).collect::<Vec<_>>().join(", ")));
        res.push_str(&format!(" \"reach\": {{{}}},\n", t.reach.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ")));
        res.push_str(&format!(" \"functions\": [{}]}}", t.used.iter().map(|f| js(&m.fns[*f as usize].name)).collect::<Vec<_>>().join(", ")));
    }
    res.push_str("\n]}\n");
    if let Some(o) = out { std::fs::write(o, res).unwrap(); }
    let _ = AtomicU64::new(0);
}
