mod exec;
mod expr;
mod ext;
mod fs;
mod ir;
mod mem;
mod solver;
use exec::*;
use ir::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::*;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: rsym MODULE.ll ENTRY [key=value..]"); std::process::exit(2); }
    let mut kv: BTreeMap<String, String> = BTreeMap::new();
    for x in &a[3..] { if let Some((k, v)) = x.split_once('=') { kv.insert(k.into(), v.into()); } }
    let num = |k: &str, d: u64| kv.get(k).map(|v| v.parse::<u64>().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let text = std::fs::read(&a[1]).expect("module");
    let m: &'static Module = Box::leak(Box::new(Module::load(text, &|n| ext::lookup(n).is_some())));
    let load_s = t0.elapsed().as_secs_f64();
    if kv.get("parse").is_some() {
        let mut n = 0;
        for f in &m.funcs { if f.body.is_some() { m.func(f.id); n += 1; } }
        eprintln!("parsed {} functions in {:.2}s", n, t0.elapsed().as_secs_f64());
        let miss: Vec<&str> = m.funcs.iter().filter(|f| f.body.is_none() && ext::lookup(&f.name).is_none()).map(|f| f.name.as_str()).collect();
        eprintln!("unmodelled: {:?}", miss);
        return;
    }
    let exts: &'static [Option<ExtFn>] = Box::leak(m.funcs.iter().map(|f| if f.body.is_none() { ext::lookup(&f.name) } else { None }).collect::<Vec<_>>().into_boxed_slice());
    let threads = num("threads", 8) as usize;
    let cfg = Cfg {
        threads, max_insts: num("max_insts", 100_000_000), max_paths: num("max_paths", 100_000_000),
        deadline: Instant::now() + Duration::from_secs(num("time", 600)), z3_ms: num("z3_ms", 8_000) as u32,
        max_viol: num("max_viol", 4) as usize, nsamples: num("samples", 32) as usize, trace: num("trace", 0) == 1,
        params: (0..8).map(|i| kv.get(&format!("p{i}")).map(|v| v.parse::<u64>().unwrap())).collect(),
    };
    let sh = Arc::new(Shared {
        q: Mutex::new(Vec::new()), cv: Condvar::new(), busy: AtomicUsize::new(0), qlen: AtomicUsize::new(0), stop: AtomicBool::new(false), paths: AtomicU64::new(0), infeasible: AtomicU64::new(0),
        insts: AtomicU64::new(0), max_path_insts: AtomicU64::new(0), errors: Default::default(), viol: Default::default(), known: Default::default(), covers: Default::default(), asserts: Default::default(),
        samples: Default::default(), stats: Default::default(), dom_dec: AtomicU64::new(0), cross: AtomicU64::new(0), called: m.funcs.iter().map(|_| AtomicBool::new(false)).collect(), forkloc: Default::default(), cfg,
        limit_hit: Mutex::new(None), maxvars: AtomicUsize::new(0),
    });
    // initial state
    let mut mem = mem::Mem::new();
    mem.map(ERRNO_ADDR, 64);
    mem.map(GLOB_BASE, m.data_end - GLOB_BASE);
    for (ad, b) in &m.init { mem.write(*ad, b).unwrap(); }
    mem.map(STACK_BASE, 4096);
    let id = *m.fidx.get(&a[2]).expect("entry function not found");
    sh.called[id as usize].store(true, Relaxed);
    let f = m.func(id);
    let st = State {
        frames: vec![Frame { f, blk: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], sp: STACK_BASE }], mem, sp: STACK_BASE, brk: HEAP_BASE, free: [0; 128],
        pc: vec![], dom: vec![], multi: vec![], model: vec![], known: vec![], obs: vec![], insts: 0, forks: 0, hash_mode: 0, fs: Default::default(), clock: 0, tls: vec![], env: Default::default(),
    };
    sh.q.lock().unwrap().push(st);
    let hs: Vec<_> = (0..threads).map(|_| {
        let sh = sh.clone();
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || { let mut w = Worker::new(m, exts, sh); w.work(); std::mem::forget(w); }).unwrap()
    }).collect();
    let mut crashed = false;
    let hard = sh.cfg.deadline + Duration::from_secs(20);
    while hs.iter().any(|h| !h.is_finished()) && Instant::now() < hard { std::thread::sleep(Duration::from_millis(3)); }
    for h in hs {
        if h.is_finished() { if h.join().is_err() { crashed = true; } }
        else { *sh.limit_hit.lock().unwrap() = Some("time budget exhausted".into()); }
    }
    let s = sh.stats.lock().unwrap().clone();
    let mut errs = sh.errors.lock().unwrap().clone();
    if crashed { errs.insert("engine thread crashed".into(), (1, vec![])); }
    let limit = sh.limit_hit.lock().unwrap().clone();
    let viol = sh.viol.lock().unwrap();
    let complete = errs.is_empty() && limit.is_none() && sh.q.lock().unwrap().is_empty() && viol.is_empty();
    let called: Vec<String> = m.funcs.iter().filter(|f| f.body.is_some() && sh.called[f.id as usize].load(Relaxed)).map(|f| f.name.clone()).collect();
    let mut o = String::from("{\n");
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    o += &format!("\"entry\":{},\"complete\":{},\"paths\":{},\"infeasible\":{},\"instructions\":{},\"max_path_instructions\":{},\"symbolic_bytes\":{},\n", jstr(&a[2]), complete, sh.paths.load(Relaxed), sh.infeasible.load(Relaxed), sh.insts.load(Relaxed), sh.max_path_insts.load(Relaxed), sh.maxvars.load(Relaxed));
    o += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_ms\":{},\"max_query_ms\":{},\"domain_decisions\":{},\"cross_checked\":{},\n", s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.time_us / 1000, s.max_us / 1000, sh.dom_dec.load(Relaxed), sh.cross.load(Relaxed));
    o += &format!("\"load_s\":{:.2},\"wall_s\":{:.2},\"z3\":{},\n", load_s, t0.elapsed().as_secs_f64(), jstr(&solver::z3_version()));
    o += &format!("\"limit\":{},\n", limit.map(|l| jstr(&l)).unwrap_or("null".into()));
    o += &format!("\"errors\":{},\n", list(errs.iter().map(|(k, v)| format!("[{},{},{}]", jstr(k), v.0, jstr(&hex(&v.1)))).collect()));
    o += &format!("\"violations\":{},\n", list(viol.iter().map(|v| format!("{{\"id\":{},\"kind\":{},\"input\":{}}}", jstr(&v.id), jstr(&v.kind), jstr(&hex(&v.input)))).collect()));
    o += &format!("\"known\":{},\n", list(sh.known.lock().unwrap().iter().map(|(k, v)| format!("{{\"id\":{},\"paths\":{},\"input\":{}}}", jstr(k), v.0, jstr(&hex(&v.1)))).collect()));
    o += &format!("\"covers\":{{{}}},\n", sh.covers.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"asserts\":{{{}}},\n", sh.asserts.lock().unwrap().iter().map(|(k, v)| format!("{}:[{},{}]", jstr(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":{},\n", list(sh.samples.lock().unwrap().iter().map(|x| format!("{{\"input\":{},\"end\":{},\"log\":{}}}", jstr(&hex(&x.input)), jstr(&x.end), list(x.log.iter().map(|l| jstr(l)).collect()))).collect()));
    if sh.cfg.trace {
        let mut fl: Vec<_> = sh.forkloc.lock().unwrap().iter().map(|(k, v)| (v.0, v.1, unsafe { &*(k.0 as *const Func) }.name.clone(), k.1)).collect();
        fl.sort_by(|a, b| b.0.cmp(&a.0));
        for x in fl.iter().take(25) { eprintln!("fork {:>8} {:<6} blk{} {}", x.0, x.1, x.3, ext::demangle(&x.2)); }
    }
    o += &format!("\"functions\":{}\n}}\n", list(called.iter().map(|f| jstr(f)).collect()));
    match kv.get("out") { Some(p) => std::fs::write(p, o).unwrap(), None => println!("{}", o) }
    std::process::exit(0);
}
