//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const HEAP_BASE: u64 = 0x1000_0000;
pub const HEAP_END: u64 = 0xB000_0000;
pub const STACK_BASE: u64 = 0xC000_0000;
pub const STACK_END: u64 = 0xD000_0000;
pub const ERRNO_ADDR: u64 = 0x0001_0000;
pub const ENV_ADDR: u64 = 0x0001_1000;

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Infeasible,
    Fail { id: String, model: Vec<u64> },
    Panic { loc: String },
    Known { id: String },
    Error(String),
    Stop,
}
pub const UNKNOWN: &str = "solver returned unknown (timeout)";
pub type R<T> = Result<T, End>;
pub fn er<T>(s: impl Into<String>) -> R<T> { Err(End::Error(s.into())) }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub sp: u64 }

#[derive(Clone)]
pub enum Obs { U(Val), B(Vec<Val>), Cover(String) }

#[derive(Clone)]
pub struct Con { pub e: E, pub vars: Arc<[u32]> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub sp: u64,
    pub brk: u64,
    pub free: [u64; 128],
    pub pc: Vec<Con>,
    pub dom: Vec<[u64; 4]>,
    pub multi: Vec<bool>,
    pub model: Vec<u64>,
    pub known: Vec<(E, u128)>,
    pub obs: Vec<Obs>,
    pub insts: u64,
    pub forks: u32,
    pub hash_mode: u64, // 0: length-only; else concrete with seed
    pub fs: Arc<crate::ext::Fs>,
    pub clock: u64,
    pub tls: Vec<u64>,
    pub env: Arc<Vec<(Vec<u8>, u64)>>,
}

impl State {
    pub fn reg<'a>(&'a self, o: &'a Op) -> &'a Val {
        match o { Op::C(v) => v, Op::R(r) => &self.frames.last().unwrap().regs[*r as usize] }
    }
    pub fn set(&mut self, d: u32, v: Val) { let f = self.frames.last_mut().unwrap(); f.regs[d as usize] = v; }
    fn class(size: u64) -> (usize, u64) {
        let s = size.max(1);
        if s <= 1024 { let c = ((s + 15) / 16) as usize; (c, c as u64 * 16) }
        else { let p = s.next_power_of_two(); (64 + p.trailing_zeros() as usize, p) }
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> R<u64> {
        if size > 1 << 30 { return Ok(0); }
        let (c, sz) = Self::class(size);
        if align <= 16 && self.free[c] != 0 {
            let a = self.free[c];
            let nx = self.mem.load_u64(a, 8).ok_or(End::Error("heap freelist".into()))?;
            self.free[c] = nx;
            return Ok(a);
        }
        let a = up(self.brk + 16, align.max(16));
        self.brk = a + sz;
        if self.brk > HEAP_END { return er("heap exhausted"); }
        self.mem.store_u64(a - 16, 8, sz).map_err(|f| End::Error(format!("fault {:x}", f.0)))?;
        self.mem.map(a, sz.min(1 << 20));
        if sz > 1 << 20 { self.mem.map(a, sz); }
        Ok(a)
    }
    pub fn msize(&self, a: u64) -> u64 { self.mem.load_u64(a - 16, 8).unwrap_or(0) }
    pub fn mfree(&mut self, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let sz = self.msize(a);
        let (c, s2) = Self::class(sz);
        if s2 != sz { return er(format!("bad free {:x}", a)); }
        let h = self.free[c];
        self.mem.store_u64(a, 8, h).map_err(|f| End::Error(format!("fault {:x}", f.0)))?;
        self.free[c] = a;
        Ok(())
    }
}

pub struct Sample { pub input: Vec<u8>, pub log: Vec<String>, pub end: String }
pub struct Violation { pub id: String, pub input: Vec<u8>, pub kind: String }

pub struct Cfg {
    pub threads: usize,
    pub max_insts: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub z3_ms: u32,
    pub max_viol: usize,
    pub nsamples: usize,
    pub trace: bool,
    pub params: Vec<Option<u64>>,
}

pub struct Shared {
    pub q: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub busy: AtomicUsize,
    pub qlen: AtomicUsize,
    pub stop: AtomicBool,
    pub paths: AtomicU64,
    pub infeasible: AtomicU64,
    pub insts: AtomicU64,
    pub max_path_insts: AtomicU64,
    pub errors: Mutex<BTreeMap<String, (u64, Vec<u8>)>>,
    pub viol: Mutex<Vec<Violation>>,
    pub known: Mutex<BTreeMap<String, (u64, Vec<u8>)>>,
    pub covers: Mutex<BTreeMap<String, u64>>,
    pub asserts: Mutex<BTreeMap<String, (u64, u64)>>, // id -> (paths decided trivially, z3 queries)
    pub samples: Mutex<Vec<Sample>>,
    pub stats: Mutex<Stats>,
    pub dom_dec: AtomicU64,
    pub cross: AtomicU64,
    pub called: Vec<AtomicBool>,
    pub forkloc: Mutex<HashMap<(usize, u32), (u64, &'static str)>>,
    pub cfg: Cfg,
    pub limit_hit: Mutex<Option<String>>,
    pub maxvars: AtomicUsize,
}

pub type ExtFn = fn(&mut Worker, &mut State, &CallI, &[Val]) -> R<Val>;

pub struct Worker {
    pub m: &'static Module,
    pub exts: &'static [Option<ExtFn>],
    pub z3: Z3,
    pub sh: Arc<Shared>,
    tt: HashMap<u64, [u64; 4]>,
    domx: HashMap<(u32, [u64; 4]), E>,
    pub covers: HashMap<(u64, u64), u64>,
    pub cov_names: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, (u64, u64)>,
    pub local: Vec<State>,
    pub dom_dec: u64,
    pub cross: u64,
    pub forkloc: HashMap<(usize, u32), (u64, &'static str)>,
}

pub fn e_of(v: &Val, w: u16) -> E {
    match v { Val::I(x) => konst(*x as u128, w), Val::W(x) => konst(**x, w), Val::S(e) => { debug_assert_eq!(e.w, w); e.clone() } Val::A(_) => panic!("aggregate as int") }
}
fn fault<T>(r: Result<T, Fault>) -> R<T> { r.map_err(|f| End::Error(format!("memory fault at {:#x}", f.0))) }

const FULL: [u64; 4] = [u64::MAX; 4];
fn dom_iter(d: [u64; 4]) -> impl Iterator<Item = u64> {
    (0..256u64).filter(move |v| d[(*v >> 6) as usize] >> (*v & 63) & 1 == 1)
}
fn dom_and(a: [u64; 4], b: [u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn dom_empty(a: &[u64; 4]) -> bool { a.iter().all(|x| *x == 0) }
fn dom_count(a: &[u64; 4]) -> u32 { a.iter().map(|x| x.count_ones()).sum() }

impl Worker {
    pub fn new(m: &'static Module, exts: &'static [Option<ExtFn>], sh: Arc<Shared>) -> Worker {
        let z = Z3::new(sh.cfg.z3_ms);
        Worker { m, exts, z3: z, sh, tt: HashMap::new(), domx: HashMap::new(), covers: HashMap::new(), cov_names: BTreeMap::new(), asserts: BTreeMap::new(), local: Vec::new(), dom_dec: 0, cross: 0, forkloc: HashMap::new() }
    }

    // ---------- constraint handling ----------
    /// truth table of a one-variable boolean
    fn table(&mut self, c: &E, v: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&c.hash) { return *t; }
        let mut t = [0u64; 4];
        let mut model = vec![0u64; v as usize + 1];
        for x in 0..256u64 {
            model[v as usize] = x;
            if Eval::new(&model).eval(c) == 1 { t[(x >> 6) as usize] |= 1 << (x & 63); }
        }
        if self.tt.len() > 200_000 { self.tt.clear(); }
        self.tt.insert(c.hash, t);
        t
    }
    pub fn add(&mut self, st: &mut State, c: &E) {
        if cval(c) == Some(1) { return; }
        if let K::Bin(Bin::And, a, b) = &c.k { if c.w == 1 { let (a, b) = (a.clone(), b.clone()); self.add(st, &a); self.add(st, &b); return; } }
        match c.sup {
            Sup::None => {}
            Sup::One(v) => {
                let t = self.table(c, v);
                let d = &mut st.dom[v as usize];
                let nd = dom_and(*d, t);
                if nd != *d { *d = nd; st.pc.push(Con { e: c.clone(), vars: Arc::from([v]) }); }
            }
            Sup::Many => {
                let vs = vars_of(c);
                for v in &vs { st.multi[*v as usize] = true; }
                st.pc.push(Con { e: c.clone(), vars: vs.into() });
            }
        }
    }
    fn slice<'s>(&self, st: &'s State, c: &E) -> (Vec<&'s E>, Vec<u32>) {
        let mut inset = vec![false; st.dom.len()];
        let mut work = vars_of(c);
        for v in &work { inset[*v as usize] = true; }
        // closure through multi-variable constraints
        let multis: Vec<&Con> = st.pc.iter().filter(|k| k.vars.len() > 1).collect();
        let mut used = vec![false; multis.len()];
        while let Some(v) = work.pop() {
            if !st.multi[v as usize] { continue; }
            for (i, k) in multis.iter().enumerate() {
                if !used[i] && k.vars.contains(&v) {
                    used[i] = true;
                    for x in k.vars.iter() { if !inset[*x as usize] { inset[*x as usize] = true; work.push(*x); } }
                }
            }
        }
        (multis.iter().zip(&used).filter(|(_, u)| **u).map(|(k, _)| &k.e).collect(), (0..inset.len() as u32).filter(|v| inset[*v as usize]).collect())
    }
    /// One-variable constraints of a path are kept as a set of byte values; this is that set as a formula.
    fn dom_expr(&mut self, v: u32, d: [u64; 4]) -> Option<E> {
        if d == FULL { return None; }
        if let Some(e) = self.domx.get(&(v, d)) { return Some(e.clone()); }
        let x = var(v, 8);
        let has = |i: u64| i < 256 && d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        let mut e = konst(0, 1);
        let mut i = 0;
        while i < 256 {
            if !has(i) { i += 1; continue; }
            let lo = i;
            while has(i) { i += 1; }
            let hi = i - 1;
            let r = if lo == hi { cmp(Cmp::Eq, &x, &konst(lo as u128, 8)) }
                else { bin(Bin::And, &cmp(Cmp::Ule, &konst(lo as u128, 8), &x), &cmp(Cmp::Ule, &x, &konst(hi as u128, 8))) };
            e = bin(Bin::Or, &e, &r);
        }
        if self.domx.len() > 100_000 { self.domx.clear(); }
        self.domx.insert((v, d), e.clone());
        Some(e)
    }
    /// z3: is pc /\ c satisfiable? returns model delta
    pub fn solve(&mut self, st: &State, c: &E) -> R<Option<Vec<(u32, u64)>>> {
        if cval(c) == Some(0) { return Ok(None); }
        let now = Instant::now();
        if now > self.sh.cfg.deadline {
            *self.sh.limit_hit.lock().unwrap() = Some("time budget exhausted".into());
            self.sh.stop.store(true, SeqCst);
        }
        if self.sh.stop.load(Relaxed) { return Err(End::Stop); }
        let (cs, vars) = self.slice(st, c);
        let mut cs: Vec<E> = cs.into_iter().cloned().collect();
        for v in vars { if let Some(e) = self.dom_expr(v, st.dom[v as usize]) { cs.push(e); } }
        cs.push(c.clone());
        let cs: Vec<&E> = cs.iter().collect();
        match self.z3.check(&cs) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => er(UNKNOWN),
        }
    }
    /// Branch feasibility. Cheap cases are decided on the byte domains; a share of those decisions
    /// is decided again by z3, and a disagreement is an engine error.
    pub fn feasible(&mut self, st: &State, c: &E) -> R<Option<Vec<(u32, u64)>>> {
        let before = self.dom_dec;
        let r = self.feasible0(st, c)?;
        if self.dom_dec > before && (self.dom_dec <= 300 || self.dom_dec % 512 == 0) {
            let z = self.solve(st, c)?;
            if z.is_some() != r.is_some() { return er("byte-domain decision disagrees with z3"); }
            self.cross += 1;
        }
        Ok(r)
    }
    fn feasible0(&mut self, st: &State, c: &E) -> R<Option<Vec<(u32, u64)>>> {
        if let Some(k) = cval(c) { return Ok(if k == 1 { Some(vec![]) } else { None }); }
        if let Sup::One(v) = c.sup {
            let t = self.table(c, v);
            let i = dom_and(t, st.dom[v as usize]);
            if dom_empty(&i) { self.dom_dec += 1; return Ok(None); }
            if !st.multi[v as usize] {
                self.dom_dec += 1;
                let x = dom_iter(i).next().unwrap();
                return Ok(Some(vec![(v, x)]));
            }
        }
        if let Some(r) = self.csp(st, c) { self.dom_dec += 1; return Ok(r); }
        self.solve(st, c)
    }
    /// Exact finite-domain search over the byte variables the query depends on (used for path
    /// feasibility only). Gives up (None) beyond a fixed effort; z3 then decides.
    fn csp(&mut self, st: &State, c: &E) -> Option<Option<Vec<(u32, u64)>>> {
        let cs = self.slice(st, c).0;
        let mut vars: Vec<u32> = vars_of(c);
        let ncv = vars.len();
        let mut multi: Vec<(&E, Vec<u32>)> = vec![(c, vars.clone())];
        for e in cs {
            if let Sup::One(_) = e.sup { continue; } // already in the domains
            let vs = vars_of(e);
            for v in &vs { if !vars.contains(v) { vars.push(*v); } }
            multi.push((e, vs));
        }
        if vars.len() > 10 { return None; }
        let _ = ncv;
        let mut prod: f64 = 1.0;
        for v in &vars { prod *= dom_count(&st.dom[*v as usize]) as f64; }
        if prod > 1e7 { return None; }
        // order variables by domain size
        vars.sort_by_key(|v| dom_count(&st.dom[*v as usize]));
        let pos = |v: u32| vars.iter().position(|x| *x == v).unwrap();
        let mut at: Vec<Vec<&E>> = vec![Vec::new(); vars.len()];
        for (e, vs) in &multi { let k = vs.iter().map(|v| pos(*v)).max().unwrap(); at[k].push(e); }
        let mut model = st.model.clone();
        let mut budget: i64 = 60_000;
        fn go(k: usize, vars: &[u32], st: &State, at: &[Vec<&E>], model: &mut Vec<u64>, budget: &mut i64) -> Option<bool> {
            if k == vars.len() { return Some(true); }
            let v = vars[k];
            // prefer the current model value
            let cur = st.model[v as usize];
            let d = st.dom[v as usize];
            let first = if d[(cur >> 6) as usize] >> (cur & 63) & 1 == 1 { Some(cur) } else { None };
            for x in first.into_iter().chain(dom_iter(d).filter(|x| Some(*x) != first)) {
                model[v as usize] = x;
                let mut ok = true;
                for e in &at[k] {
                    *budget -= (e.size as i64).min(2000);
                    if Eval::new(model).eval(e) != 1 { ok = false; break; }
                }
                if *budget < 0 { return None; }
                if ok { match go(k + 1, vars, st, at, model, budget) { Some(false) => {} r => return r } }
            }
            Some(false)
        }
        match go(0, &vars, st, &at, &mut model, &mut budget) {
            None => None,
            Some(false) => Some(None),
            Some(true) => Some(Some(vars.iter().map(|v| (*v, model[*v as usize])).collect())),
        }
    }
    pub fn eval(&self, st: &State, e: &E) -> u128 { Eval::new(&st.model).eval(e) }
    /// try to show that e is constant on this path without a query
    pub fn resolve(&mut self, st: &State, e: &E) -> Option<u128> {
        if let Some(c) = cval(e) { return Some(c); }
        if let Sup::One(v) = e.sup {
            let d = st.dom[v as usize];
            if dom_count(&d) == 1 { return Some(self.eval(st, e)); }
            if e.w == 1 {
                let t = self.table(e, v);
                let i = dom_and(t, d);
                if dom_empty(&i) { return Some(0); }
                if i == d { return Some(1); }
            }
            return None;
        }
        for (k, v) in st.known.iter().rev() { if same(k, e) { return Some(*v); } }
        None
    }
    /// The solver gave up: this path goes on under its current model; the other side is recorded as not decided.
    pub fn undecided(&mut self, st: &State, what: &str) {
        let i = Self::input_of(&st.model);
        self.sh.errors.lock().unwrap().entry(format!("{UNKNOWN} on a {what}")).or_insert((0, i)).0 += 1;
    }
    fn fork_loc(&mut self, st: &State, why: &'static str) {
        if self.sh.cfg.trace {
            let f = st.frames.last().unwrap();
            let k = (f.f as *const Func as usize, f.blk);
            self.forkloc.entry(k).or_insert((0, why)).0 += 1;
        }
    }
    /// Decide a symbolic condition; the not-taken feasible side is returned as a forked state.
    pub fn branch(&mut self, st: &mut State, c: &E) -> R<(bool, Option<State>)> {
        if let Some(k) = self.resolve(st, c) { return Ok((k == 1, None)); }
        let mv = self.eval(st, c) == 1;
        let nc = not(c);
        let (here, other) = if mv { (c, &nc) } else { (&nc, c) };
        let d = match self.feasible(st, other) {
            Err(End::Error(m)) if m == UNKNOWN => { self.undecided(st, "branch"); self.add(st, here); return Ok((mv, None)); }
            r => r?,
        };
        match d {
            None => {
                if matches!(c.sup, Sup::Many) { st.known.push((c.clone(), mv as u128)); }
                Ok((mv, None))
            }
            Some(d) => {
                self.fork_loc(st, "br");
                let mut o = st.clone();
                o.forks += 1; st.forks += 1;
                self.add(&mut o, other);
                for (v, x) in d { o.model[v as usize] = x; }
                if matches!(c.sup, Sup::Many) { o.known.push((c.clone(), !mv as u128)); st.known.push((c.clone(), mv as u128)); }
                self.add(st, here);
                Ok((mv, Some(o)))
            }
        }
    }
    /// Enumerate the values of `e`: this state continues with one of them, forks re-execute the
    /// current instruction with that value excluded.
    pub fn concretize(&mut self, st: &mut State, e: &E) -> R<u128> {
        if let Some(v) = self.resolve(st, e) { return Ok(v); }
        let v = self.eval(st, e);
        let eq = cmp(Cmp::Eq, e, &konst(v, e.w));
        let ne = not(&eq);
        let d = match self.feasible(st, &ne) {
            Err(End::Error(m)) if m == UNKNOWN => { self.undecided(st, "value"); self.add(st, &eq); None }
            r => r?,
        };
        if let Some(d) = d {
            self.fork_loc(st, "conc");
            let mut o = st.clone();
            o.forks += 1; st.forks += 1;
            self.add(&mut o, &ne);
            for (v, x) in d { o.model[v as usize] = x; }
            self.push(o);
            self.add(st, &eq);
        }
        st.known.push((e.clone(), v));
        Ok(v)
    }
    pub fn cu64(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v { Val::I(x) => Ok(*x), Val::W(x) => Ok(**x as u64), Val::S(e) => { let e = e.clone(); Ok(self.concretize(st, &e)? as u64) } Val::A(_) => er("aggregate as int") }
    }
    pub fn push(&mut self, s: State) {
        if self.sh.qlen.load(Relaxed) < 4 * self.sh.cfg.threads {
            let mut q = self.sh.q.lock().unwrap();
            q.push(s);
            self.sh.qlen.store(q.len(), Relaxed);
            self.sh.cv.notify_one();
        } else { self.local.push(s); }
    }
    pub fn new_var(&mut self, st: &mut State) -> E {
        let id = st.dom.len() as u32;
        st.dom.push(FULL);
        st.multi.push(false);
        st.model.push(0);
        self.sh.maxvars.fetch_max(st.dom.len(), Relaxed);
        var(id, 8)
    }

    // ---------- main loop ----------
    pub fn work(&mut self) {
        loop {
            if self.sh.stop.load(Relaxed) { break; }
            let s = match self.local.pop() {
                Some(s) => s,
                None => {
                    let sh = self.sh.clone();
                    let mut q = sh.q.lock().unwrap();
                    loop {
                        if sh.stop.load(Relaxed) { drop(q); return self.flush(); }
                        if let Some(s) = q.pop() { sh.qlen.store(q.len(), Relaxed); sh.busy.fetch_add(1, SeqCst); break s; }
                        if sh.busy.load(SeqCst) == 0 { sh.stop.store(true, SeqCst); sh.cv.notify_all(); drop(q); return self.flush(); }
                        if Instant::now() > sh.cfg.deadline + Duration::from_secs(30) { sh.stop.store(true, SeqCst); }
                        let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(5)).unwrap();
                        q = g;
                    }
                }
            };
            // a state taken from the local stack keeps `busy` held
            let sh = self.sh.clone();
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run(s))).is_err() {
                sh.errors.lock().unwrap_or_else(|e| e.into_inner()).entry("engine panic".into()).or_insert((0, vec![])).0 += 1;
            }
            if self.local.is_empty() { self.sh.busy.fetch_sub(1, SeqCst); }
        }
        self.flush();
    }
    pub fn flush(&mut self) {
        let mut s = self.sh.stats.lock().unwrap();
        let z = &self.z3.stats;
        s.queries += z.queries; s.sat += z.sat; s.unsat += z.unsat; s.unknown += z.unknown; s.cache_hits += z.cache_hits; s.time_us += z.time_us; s.max_us = s.max_us.max(z.max_us);
        drop(s);
        self.sh.dom_dec.fetch_add(self.dom_dec, Relaxed);
        self.sh.cross.fetch_add(self.cross, Relaxed);
        let mut c = self.sh.covers.lock().unwrap();
        for (k, v) in &self.cov_names { *c.entry(k.clone()).or_insert(0) += v; }
        let mut a = self.sh.asserts.lock().unwrap();
        for (k, v) in &self.asserts { let e = a.entry(k.clone()).or_insert((0, 0)); e.0 += v.0; e.1 += v.1; }
        let mut fl = self.sh.forkloc.lock().unwrap();
        for (k, v) in &self.forkloc { fl.entry(*k).or_insert((0, v.1)).0 += v.0; }
    }
    fn input_of(model: &[u64]) -> Vec<u8> { model.iter().map(|x| *x as u8).collect() }

    fn log_of(&self, st: &State) -> Vec<String> {
        let mut ev = Eval::new(&st.model);
        let mut g = |v: &Val| -> u64 { match v { Val::I(x) => *x, Val::S(e) => ev.eval(e) as u64, _ => 0 } };
        st.obs.iter().map(|o| match o {
            Obs::U(v) => format!("VP-OBS {}", g(v)),
            Obs::B(b) => { let mut s = String::from("VP-OBSB "); for x in b { s.push_str(&format!("{:02x}", g(x) as u8)); } s }
            Obs::Cover(s) => format!("VP-COVER {}", s),
        }).collect()
    }

    fn run(&mut self, mut st: State) {
        let start = st.insts;
        let end = loop {
            match self.burst(&mut st) {
                Ok(()) => {
                    if self.sh.stop.load(Relaxed) { return; }
                    if Instant::now() > self.sh.cfg.deadline {
                        *self.sh.limit_hit.lock().unwrap() = Some("time budget exhausted".into());
                        self.sh.stop.store(true, SeqCst);
                        self.sh.cv.notify_all();
                        return;
                    }
                    if st.insts > self.sh.cfg.max_insts { break End::Error(format!("path exceeded {} instructions in {}", self.sh.cfg.max_insts, st.frames.last().map(|f| f.f.name.as_str()).unwrap_or("?"))); }
                }
                Err(e) => break e,
            }
        };
        self.sh.insts.fetch_add(st.insts - start, Relaxed);
        self.sh.max_path_insts.fetch_max(st.insts, Relaxed);
        let n = match &end { End::Stop => return, End::Infeasible => { self.sh.infeasible.fetch_add(1, Relaxed); return; } _ => self.sh.paths.fetch_add(1, Relaxed) + 1 };
        if n >= self.sh.cfg.max_paths {
            *self.sh.limit_hit.lock().unwrap() = Some(format!("path budget {} exhausted", self.sh.cfg.max_paths));
            self.sh.stop.store(true, SeqCst);
        }
        let mut endname = "done";
        match end {
            End::Fail { id, model } => {
                self.viol(Violation { id, input: Self::input_of(&model), kind: "assert".into() });
                return;
            }
            End::Panic { loc } => {
                self.viol(Violation { id: format!("panic at {}", loc), input: Self::input_of(&st.model), kind: "panic".into() });
                return;
            }
            End::Known { id } => {
                endname = "known";
                let mut k = self.sh.known.lock().unwrap();
                let i = Self::input_of(&st.model);
                let x = k.entry(id).or_insert((0, i));
                x.0 += 1;
            }
            End::Error(s) => {
                let s = if self.sh.cfg.trace { format!("{} [{}]", s, st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < ")) } else { s };
                let i = Self::input_of(&st.model);
                self.sh.errors.lock().unwrap().entry(s).or_insert((0, i)).0 += 1;
                return;
            }
            _ => {}
        }
        // sampling for translator validation
        let mut h = 0xcbf29ce484222325u64;
        for x in &st.model { h = (h ^ x).wrapping_mul(0x100000001b3); }
        h ^= h >> 29;
        let ns = self.sh.cfg.nsamples as u64;
        if ns > 0 && (n <= ns / 2 || h % (n / ns + 1) == 0) {
            let log = self.log_of(&st);
            let s = Sample { input: Self::input_of(&st.model), log, end: endname.into() };
            let mut v = self.sh.samples.lock().unwrap();
            if v.len() < ns as usize { v.push(s); } else { let k = (h >> 8) as usize % ns as usize; v[k] = s; }
        }
    }
    fn viol(&mut self, v: Violation) {
        let mut q = self.sh.viol.lock().unwrap();
        let same = q.iter().filter(|x| x.id == v.id).count();
        if same < 3 { q.push(v); }
        let ids: std::collections::HashSet<&str> = q.iter().map(|x| x.id.as_str()).collect();
        if ids.len() >= self.sh.cfg.max_viol || q.len() >= 3 * self.sh.cfg.max_viol { self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); }
    }

    #[inline]
    fn jump(st: &mut State, e: &'static Edge) {
        let f = st.frames.last_mut().unwrap();
        match e.copies.len() {
            0 => {}
            1 => { let (d, o) = &e.copies[0]; let v = match o { Op::C(v) => v.clone(), Op::R(r) => f.regs[*r as usize].clone() }; f.regs[*d as usize] = v; }
            _ => {
                let vs: Vec<Val> = e.copies.iter().map(|(_, o)| match o { Op::C(v) => v.clone(), Op::R(r) => f.regs[*r as usize].clone() }).collect();
                for ((d, _), v) in e.copies.iter().zip(vs) { f.regs[*d as usize] = v; }
            }
        }
        f.blk = e.blk;
        f.ip = 0;
    }

    fn burst(&mut self, st: &mut State) -> R<()> {
        for _ in 0..20000 { self.step(st)?; st.insts += 1; }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins: &'static Inst = &f.blocks[fr.blk as usize][fr.ip as usize];
        macro_rules! next { ($d:expr, $v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[$d as usize] = v; fr.ip += 1; return Ok(()); }} }
        macro_rules! adv { () => {{ st.frames.last_mut().unwrap().ip += 1; return Ok(()); }} }
        match ins {
            Inst::Bin { op, w, dst, a, b } => {
                let v = { let (x, y) = (st.reg(a), st.reg(b)); bin_val(*op, *w, x, y)? };
                next!(*dst, v)
            }
            Inst::ICmp { p, w, dst, a, b } => { let v = icmp_val(*p, *w, st.reg(a), st.reg(b)); next!(*dst, v) }
            Inst::Load { dst, w, n, addr } => {
                let a = match st.reg(addr) { Val::I(a) => *a, Val::S(e) => { let e = e.clone(); let v = self.load_sym(st, &e, *n as usize, *w)?; next!(*dst, v) } _ => return er("load addr") };
                if *n <= 8 { if let Some(x) = st.mem.load_u64(a, *n as usize) { let x = if *w < 64 { x & ((1u64 << *w) - 1) } else { x }; next!(*dst, Val::I(x)) } }
                let v = fault(st.mem.load(a, *n as usize, *w))?;
                next!(*dst, v)
            }
            Inst::Store { w, n, val, addr } => {
                let a = match st.reg(addr) { Val::I(a) => *a, Val::S(e) => { let e = e.clone(); self.concretize(st, &e)? as u64 } _ => return er("store addr") };
                let v = st.reg(val).clone();
                match v { Val::I(x) if *n <= 8 => fault(st.mem.store_u64(a, *n as usize, x))?, v => fault(st.mem.store(a, *n as usize, *w, &v))? }
                adv!()
            }
            Inst::Gep { dst, base, off, idx } => {
                let mut cur = match st.reg(base) { Val::I(a) => Val::I(a.wrapping_add(*off)), Val::S(e) => val_of(bin(Bin::Add, e, &konst(*off as u128, 64))), _ => return er("gep base") };
                for (o, iw, scale) in idx.iter() {
                    let v = st.reg(o);
                    cur = match (&cur, v) {
                        (Val::I(a), Val::I(i)) => Val::I(a.wrapping_add((sext(*i as u128, *iw) as i64 as u64).wrapping_mul(*scale))),
                        (c, v) => {
                            let i = e_of(v, *iw);
                            let i = sext_e(&i, 64);
                            val_of(bin(Bin::Add, &e_of(c, 64), &bin(Bin::Mul, &i, &konst(*scale as u128, 64))))
                        }
                    };
                }
                next!(*dst, cur)
            }
            Inst::Br(e) => { Self::jump(st, e); Ok(()) }
            Inst::CondBr { c, t, f } => {
                match st.reg(c) {
                    Val::I(x) => { let e = if *x & 1 == 1 { t } else { f }; Self::jump(st, e); Ok(()) }
                    Val::S(c) => {
                        let c = c.clone();
                        let (b, o) = self.branch(st, &c)?;
                        if let Some(mut o) = o { Self::jump(&mut o, if b { f } else { t }); self.push(o); }
                        Self::jump(st, if b { t } else { f });
                        Ok(())
                    }
                    _ => er("br cond"),
                }
            }
            Inst::Switch { w, v, def, cases } => {
                match st.reg(v).clone() {
                    Val::I(x) => { let mut e = def; for (c, l) in cases { if *c == x as u128 { e = l; break; } } Self::jump(st, e); Ok(()) }
                    Val::W(x) => { let mut e = def; for (c, l) in cases { if *c == *x { e = l; break; } } Self::jump(st, e); Ok(()) }
                    Val::S(x) => {
                        if let Some(k) = self.resolve(st, &x) { let mut e = def; for (c, l) in cases { if *c == k { e = l; break; } } Self::jump(st, e); return Ok(()); }
                        // group by target block+copies identity (by edge blk when no copies)
                        let mut groups: Vec<(&'static Edge, E)> = Vec::new();
                        let mut any = konst(0, 1);
                        for (c, l) in cases {
                            let q = cmp(Cmp::Eq, &x, &konst(*c, *w));
                            any = bin(Bin::Or, &any, &q);
                            if l.copies.is_empty() {
                                if let Some(g) = groups.iter_mut().find(|g| g.0.blk == l.blk && g.0.copies.is_empty()) { g.1 = bin(Bin::Or, &g.1, &q); continue; }
                            }
                            groups.push((l, q));
                        }
                        let nd = not(&any);
                        if def.copies.is_empty() && groups.iter().any(|g| g.0.blk == def.blk && g.0.copies.is_empty()) {
                            let g = groups.iter_mut().find(|g| g.0.blk == def.blk && g.0.copies.is_empty()).unwrap();
                            g.1 = bin(Bin::Or, &g.1, &nd);
                        } else { groups.push((def, nd)); }
                        let mut mine: Option<(&'static Edge, E)> = None;
                        let mut forks: Vec<State> = Vec::new();
                        for (l, q) in groups {
                            if cval(&q) == Some(0) { continue; }
                            if mine.is_none() && self.eval(st, &q) == 1 { mine = Some((l, q)); continue; }
                            if let Some(d) = self.feasible(st, &q)? {
                                self.fork_loc(st, "switch");
                                let mut o = st.clone();
                                o.forks += 1;
                                self.add(&mut o, &q);
                                for (v, x) in d { o.model[v as usize] = x; }
                                Self::jump(&mut o, l);
                                forks.push(o);
                            }
                        }
                        let (l, q) = mine.ok_or(End::Error("switch: no case".into()))?;
                        if !forks.is_empty() { self.add(st, &q); st.forks += 1; }
                        for o in forks { self.push(o); }
                        Self::jump(st, l);
                        Ok(())
                    }
                    _ => er("switch"),
                }
            }
            Inst::Select { dst, c, a, b, ty, cvec } => {
                let cv = st.reg(c).clone();
                if *cvec {
                    let (x, y) = (st.reg(a).clone(), st.reg(b).clone());
                    let w = match ty { Ty::Vec(_, e) => e.bits(), _ => return er("vsel") };
                    let r = match (cv, x, y) { (Val::A(c), Val::A(x), Val::A(y)) => Val::A(Arc::new(c.iter().zip(x.iter().zip(y.iter())).map(|(c, (x, y))| sel_val(c, x, y, w)).collect())), _ => return er("vsel") };
                    next!(*dst, r)
                }
                match cv {
                    Val::I(k) => { let v = st.reg(if k & 1 == 1 { a } else { b }).clone(); next!(*dst, v) }
                    Val::S(c) => {
                        let (x, y) = (st.reg(a).clone(), st.reg(b).clone());
                        if let (Val::I(p), Val::I(q)) = (&x, &y) { if p == q { next!(*dst, x) } }
                        if matches!(ty, Ty::Ptr | Ty::F32 | Ty::F64) {
                            let (t, o) = self.branch(st, &c)?;
                            if let Some(mut o) = o { let fr = o.frames.last_mut().unwrap(); fr.regs[*dst as usize] = if t { y.clone() } else { x.clone() }; fr.ip += 1; self.push(o); }
                            next!(*dst, if t { x } else { y })
                        }
                        if let Some(k) = self.resolve(st, &c) { next!(*dst, if k == 1 { x } else { y }) }
                        let r = sel_ty(&Val::S(c), &x, &y, ty);
                        next!(*dst, r)
                    }
                    _ => er("select"),
                }
            }
            Inst::Cast { k, from, to, dst, a } => {
                if from.bits() > 128 || to.bits() > 128 { return er("integer wider than 128 bits"); }
                let v = st.reg(a).clone();
                let r = self.cast(st, *k, from, to, v)?;
                next!(*dst, r)
            }
            Inst::Call(c) => self.call(st, c),
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| st.reg(o).clone());
                let fr = st.frames.pop().unwrap();
                st.sp = fr.sp;
                if st.frames.is_empty() { return Err(End::Done); }
                let cf = st.frames.last().unwrap();
                let ci: &'static Inst = &cf.f.blocks[cf.blk as usize][cf.ip as usize];
                if let Inst::Call(c) = ci { self.finish_call(st, c, v.unwrap_or(Val::I(0))); Ok(()) } else { er("ret: caller not at call") }
            }
            Inst::Alloca { dst, size, align, n } => {
                let nv = st.reg(n).clone();
                let n = self.cu64(st, &nv)?;
                let a = up(st.sp, (*align).max(16));
                st.sp = a + size * n;
                if st.sp > STACK_END { return er("stack overflow"); }
                // make the pages exist
                if !st.mem.mapped(a) || !st.mem.mapped(st.sp) { let k = st.sp - a + 1; st.mem.map(a, k); }
                else { st.mem.map(a, size * n + 1); }
                next!(*dst, Val::I(a))
            }
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = st.reg(a).clone();
                for i in idx { v = match &v { Val::A(x) => x[*i as usize].clone(), _ => return er("extractvalue") }; }
                next!(*dst, v)
            }
            Inst::InsertValue { dst, a, v, idx } => {
                fn ins(a: &mut Val, idx: &[u32], v: Val) { if idx.is_empty() { *a = v; } else if let Val::A(x) = a { ins(&mut Arc::make_mut(x)[idx[0] as usize], &idx[1..], v) } else { panic!("insertvalue") } }
                let mut x = st.reg(a).clone();
                let v = st.reg(v).clone();
                ins(&mut x, idx, v);
                next!(*dst, x)
            }
            Inst::Copy { dst, a } => { let v = st.reg(a).clone(); next!(*dst, v) }
            Inst::Nop => adv!(),
            Inst::VBin { op, w, dst, a, b } => {
                let r = match (st.reg(a), st.reg(b)) {
                    (Val::A(x), Val::A(y)) => { let mut v = Vec::with_capacity(x.len()); for (p, q) in x.iter().zip(y.iter()) { v.push(bin_val(*op, *w, p, q)?); } Val::A(Arc::new(v)) }
                    _ => return er("vbin"),
                };
                next!(*dst, r)
            }
            Inst::VICmp { p, w, dst, a, b } => {
                let r = match (st.reg(a), st.reg(b)) { (Val::A(x), Val::A(y)) => Val::A(Arc::new(x.iter().zip(y.iter()).map(|(q, r)| icmp_val(*p, *w, q, r)).collect())), _ => return er("vicmp") };
                next!(*dst, r)
            }
            Inst::LoadAgg { dst, ty, addr } => {
                let av = st.reg(addr).clone();
                let a = self.cu64(st, &av)?;
                let v = load_ty(&st.mem, a, ty)?;
                next!(*dst, v)
            }
            Inst::StoreAgg { ty, val, addr } => {
                let av = st.reg(addr).clone();
                let a = self.cu64(st, &av)?;
                let v = st.reg(val).clone();
                store_ty(&mut st.mem, a, ty, &v)?;
                adv!()
            }
            Inst::ExtractElem { dst, a, i } => {
                let iv = st.reg(i).clone();
                let i = self.cu64(st, &iv)? as usize;
                let v = match st.reg(a) { Val::A(x) => x[i].clone(), _ => return er("extractelement") };
                next!(*dst, v)
            }
            Inst::InsertElem { dst, a, v, i } => {
                let iv = st.reg(i).clone();
                let i = self.cu64(st, &iv)? as usize;
                let mut x = match st.reg(a) { Val::A(x) => (**x).clone(), _ => return er("insertelement") };
                x[i] = st.reg(v).clone();
                next!(*dst, Val::A(Arc::new(x)))
            }
            Inst::Shuffle { dst, a, b, n, mask, .. } => {
                let r = match (st.reg(a), st.reg(b)) {
                    (Val::A(x), Val::A(y)) => Val::A(Arc::new(mask.iter().map(|i| { let i = *i as usize; if i < *n { x[i].clone() } else { y[i - *n].clone() } }).collect())),
                    _ => return er("shuffle"),
                };
                next!(*dst, r)
            }
            Inst::RmwI { dst, op, addr, v, w } => {
                let av = st.reg(addr).clone();
                let a = self.cu64(st, &av)?;
                let n = (*w as usize + 7) / 8;
                let old = fault(st.mem.load(a, n, *w))?;
                let x = st.reg(v).clone();
                let nv = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => bin_val(IBin::Add, *w, &old, &x)?, Rmw::Sub => bin_val(IBin::Sub, *w, &old, &x)?,
                    Rmw::And => bin_val(IBin::And, *w, &old, &x)?, Rmw::Or => bin_val(IBin::Or, *w, &old, &x)?, Rmw::Xor => bin_val(IBin::Xor, *w, &old, &x)?,
                    Rmw::Nand => { let t = bin_val(IBin::And, *w, &old, &x)?; bin_val(IBin::Xor, *w, &t, &vconst(u128::MAX, *w))? }
                    Rmw::UMax => sel_val(&icmp_val(Pred::Ugt, *w, &old, &x), &old, &x, *w), Rmw::UMin => sel_val(&icmp_val(Pred::Ult, *w, &old, &x), &old, &x, *w),
                    Rmw::Max => sel_val(&icmp_val(Pred::Sgt, *w, &old, &x), &old, &x, *w), Rmw::Min => sel_val(&icmp_val(Pred::Slt, *w, &old, &x), &old, &x, *w),
                };
                fault(st.mem.store(a, n, *w, &nv))?;
                next!(*dst, old)
            }
            Inst::CmpXchg { dst, addr, c, v, w } => {
                let av = st.reg(addr).clone();
                let a = self.cu64(st, &av)?;
                let n = (*w as usize + 7) / 8;
                let old = fault(st.mem.load(a, n, *w))?;
                let ov = self.cu64(st, &old)?;
                let cv = st.reg(c).clone();
                let cv = self.cu64(st, &cv)?;
                let ok = ov == cv;
                if ok { let nv = st.reg(v).clone(); fault(st.mem.store(a, n, *w, &nv))?; }
                next!(*dst, Val::A(Arc::new(vec![Val::I(ov), Val::I(ok as u64)])))
            }
            Inst::FBin { op, w, dst, a, b } => {
                let (av, bv) = (st.reg(a).clone(), st.reg(b).clone());
                let (x, y) = (self.cu64(st, &av)?, self.cu64(st, &bv)?);
                let rem = *w & 0x8000 != 0;
                let w = *w & 0x7fff;
                let r = if w == 64 {
                    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                    (match op { b'a' => p + q, b's' => p - q, b'm' => p * q, b'd' => p / q, _ => if rem { p % q } else { p % q } }).to_bits()
                } else {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { b'a' => p + q, b's' => p - q, b'm' => p * q, b'd' => p / q, _ => p % q }).to_bits() as u64
                };
                next!(*dst, Val::I(r))
            }
            Inst::FNeg { w, dst, a } => {
                let av = st.reg(a).clone();
                let x = self.cu64(st, &av)?;
                next!(*dst, Val::I(x ^ (1u64 << (*w - 1))))
            }
            Inst::FCmp { p, w, dst, a, b } => {
                let (av, bv) = (st.reg(a).clone(), st.reg(b).clone());
                let (x, y) = (self.cu64(st, &av)?, self.cu64(st, &bv)?);
                let (x, y) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un,
                    "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, "uno" => un,
                    "true" => true, "false" => false, _ => return er("fcmp"),
                };
                next!(*dst, Val::I(r as u64))
            }
            Inst::LandingPad => er("landing pad reached"),
            Inst::Unreachable => er(format!("unreachable executed in {}", f.name)),
            Inst::Resume => er("resume reached"),
        }
    }

    fn load_sym(&mut self, st: &mut State, e: &E, n: usize, w: u16) -> R<Val> {
        if let Some(a) = self.resolve(st, e) { return fault(st.mem.load(a as u64, n, w)); }
        if let Sup::One(v) = e.sup {
            let d = st.dom[v as usize];
            let mut model = st.model.clone();
            let mut runs: Vec<(u64, u64, Val)> = Vec::new(); // lo, hi(inclusive among domain), value
            let mut ok = true;
            for x in dom_iter(d) {
                model[v as usize] = x;
                let a = Eval::new(&model).eval(e) as u64;
                match st.mem.load(a, n, w) {
                    Ok(val) => {
                        if let Some(l) = runs.last_mut() { if veq(&l.2, &val) { l.1 = x; continue; } }
                        runs.push((x, x, val));
                    }
                    Err(_) => {
                        // an infeasible value may lie outside the table only if the variable is
                        // multi-constrained; fall back to enumeration
                        ok = false; break;
                    }
                }
            }
            if ok && !runs.is_empty() && runs.len() <= 128 {
                let xv = var(v, 8);
                // default: the last run's value; build from the back over ascending thresholds
                let mut acc = e_of(&runs.last().unwrap().2, w);
                for i in (0..runs.len() - 1).rev() {
                    let c = cmp(Cmp::Ule, &xv, &konst(runs[i].1 as u128, 8));
                    acc = ite(&c, &e_of(&runs[i].2, w), &acc);
                }
                return Ok(val_of(acc));
            }
            let a = self.concretize(st, e)?;
            return fault(st.mem.load(a as u64, n, w));
        }
        // several variables: pin down the part with the lowest variable, then retry
        if let Some(sub) = pick_sub(e) {
            let val = self.concretize(st, &sub)?;
            let e2 = subst(e, &sub, &konst(val, sub.w));
            if e2.hash != e.hash {
                if let Some(a) = cval(&e2) { return fault(st.mem.load(a as u64, n, w)); }
                return self.load_sym(st, &e2, n, w);
            }
        }
        let a = self.concretize(st, e)?;
        fault(st.mem.load(a as u64, n, w))
    }

    fn cast(&mut self, st: &mut State, k: CastK, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
            if k != CastK::Bitcast {
                if let Val::A(xs) = v { let mut o = Vec::new(); for x in xs.iter() { o.push(self.cast(st, k, fe, te, x.clone())?); } return Ok(Val::A(Arc::new(o))); }
                return er("vcast");
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            CastK::Trunc => match v { Val::I(x) => vconst(x as u128, tw), Val::W(x) => vconst(*x, tw), Val::S(e) => val_of(extract(&e, 0, tw)), _ => return er("trunc") },
            CastK::ZExt | CastK::PtrInt if tw >= fw => match v { Val::I(x) => vconst(x as u128, tw), Val::W(x) => vconst(*x, tw), Val::S(e) => val_of(zext(&e, tw)), _ => return er("zext") },
            CastK::PtrInt => match v { Val::I(x) => vconst(x as u128, tw), Val::S(e) => val_of(extract(&e, 0, tw)), _ => return er("ptrint") },
            CastK::SExt => match v { Val::I(x) => vconst(sext(x as u128, fw) as u128, tw), Val::W(x) => vconst(sext(*x, fw) as u128, tw), Val::S(e) => val_of(sext_e(&e, tw)), _ => return er("sext") },
            CastK::Bitcast => bitcast(from, to, &v)?,
            CastK::FpToUi | CastK::FpToSi | CastK::UiToFp | CastK::SiToFp | CastK::FpTrunc | CastK::FpExt => {
                let x: u128 = match &v { Val::I(x) => *x as u128, Val::W(x) => **x, Val::S(e) => { let e = e.clone(); self.concretize(st, &e)? } _ => return er("fpcast") };
                let fl = |x: u128, w: u16| if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let bk = |d: f64, w: u16| if w == 64 { d.to_bits() } else { (d as f32).to_bits() as u64 };
                match k {
                    CastK::FpToUi => vconst(fl(x, fw) as u128, tw),
                    CastK::FpToSi => vconst(fl(x, fw) as i128 as u128, tw),
                    CastK::UiToFp => Val::I(if tw == 32 { ((x) as f32).to_bits() as u64 } else { bk(x as f64, tw) }),
                    CastK::SiToFp => Val::I(if tw == 32 { (sext(x, fw) as f32).to_bits() as u64 } else { bk(sext(x, fw) as f64, tw) }),
                    _ => Val::I(bk(fl(x, fw), tw)),
                }
            }
            _ => return er("cast"),
        })
    }

    fn finish_call(&mut self, st: &mut State, c: &'static CallI, v: Val) {
        if let Some(d) = c.dst { st.set(d, v); }
        match &c.normal { Some(e) => Self::jump(st, e), None => st.frames.last_mut().unwrap().ip += 1 }
    }

    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        let id = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Ind(o) => {
                let v = st.reg(o).clone();
                let a = self.cu64(st, &v)?;
                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 { return er(format!("indirect call to {:#x}", a)); }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Asm(s) => {
                // "/*..*/" with an output tied to the input hides a value from the optimiser; cpuid reports no features
                let code = s.split('"').nth(1).unwrap_or("").trim();
                let nop = code.is_empty() || (code.starts_with("/*") && code.ends_with("*/"));
                let r = if nop && c.args.len() == 1 && s.contains("r,0") { st.reg(&c.args[0]).clone() }
                    else if (nop && c.ret == Ty::Void) || s.contains("cpuid") { zero_of(&c.ret) }
                    else { return er(format!("unmodelled inline assembly {s}")); };
                self.finish_call(st, c, r);
                return Ok(());
            }
        };
        if let Some(x) = self.exts[id as usize] {
            let args: Vec<Val> = c.args.iter().map(|o| st.reg(o).clone()).collect();
            let v = x(self, st, c, &args)?;
            self.finish_call(st, c, v);
            return Ok(());
        }
        let d = &self.m.funcs[id as usize];
        if d.body.is_none() { return er(format!("unmodelled external function {}", d.name)); }
        if !self.sh.called[id as usize].load(Relaxed) { self.sh.called[id as usize].store(true, Relaxed); }
        let f = self.m.func(id);
        let mut regs: Vec<Val> = vec![Val::I(0); f.nregs as usize];
        for (p, o) in f.params.iter().zip(c.args.iter()) { regs[*p as usize] = st.reg(o).clone(); }
        if st.frames.len() > 4000 { return er("call depth"); }
        let sp = st.sp;
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, sp });
        Ok(())
    }
}

fn veq(a: &Val, b: &Val) -> bool {
    match (a, b) { (Val::I(x), Val::I(y)) => x == y, (Val::W(x), Val::W(y)) => x == y, (Val::S(x), Val::S(y)) => same(x, y), _ => false }
}
/// choose a one-variable sub-term of an addition tree
fn pick_sub(e: &E) -> Option<E> {
    let mut best: Option<(u32, E)> = None;
    fn walk(e: &E, best: &mut Option<(u32, E)>, depth: u32) {
        match e.sup {
            Sup::None => {}
            Sup::One(v) => { if best.as_ref().map(|b| v < b.0).unwrap_or(true) { *best = Some((v, e.clone())); } }
            Sup::Many => {
                if depth > 12 { return; }
                match &e.k {
                    K::Bin(_, a, b) | K::Concat(a, b) => { walk(a, best, depth + 1); walk(b, best, depth + 1); }
                    K::ZExt(a) | K::SExt(a) | K::Extract(a, _) | K::Not(a) => walk(a, best, depth + 1),
                    K::Ite(c, _, _) => walk(c, best, depth + 1),
                    _ => {}
                }
            }
        }
    }
    walk(e, &mut best, 0);
    best.map(|b| b.1)
}
fn subst(e: &E, from: &E, to: &E) -> E {
    if same(e, from) { return to.clone(); }
    if matches!(e.sup, Sup::None) { return e.clone(); }
    match &e.k {
        K::Const(_) | K::Var(_) => e.clone(),
        K::Bin(o, a, b) => bin(*o, &subst(a, from, to), &subst(b, from, to)),
        K::Cmp(o, a, b) => cmp(*o, &subst(a, from, to), &subst(b, from, to)),
        K::Not(a) => not(&subst(a, from, to)),
        K::Concat(a, b) => concat(&subst(a, from, to), &subst(b, from, to)),
        K::Extract(a, l) => extract(&subst(a, from, to), *l, e.w),
        K::ZExt(a) => zext(&subst(a, from, to), e.w),
        K::SExt(a) => sext_e(&subst(a, from, to), e.w),
        K::Ite(c, a, b) => ite(&subst(c, from, to), &subst(a, from, to), &subst(b, from, to)),
    }
}

#[inline]
pub fn bin_val(op: IBin, w: u16, x: &Val, y: &Val) -> R<Val> {
    if let (Val::I(a), Val::I(b)) = (x, y) {
        if w == 64 {
            let r = match op {
                IBin::Add => Some(a.wrapping_add(*b)), IBin::Sub => Some(a.wrapping_sub(*b)), IBin::Mul => Some(a.wrapping_mul(*b)),
                IBin::And => Some(a & b), IBin::Or => Some(a | b), IBin::Xor => Some(a ^ b),
                IBin::Shl => Some(if *b < 64 { a << b } else { 0 }), IBin::LShr => Some(if *b < 64 { a >> b } else { 0 }),
                _ => None,
            };
            if let Some(r) = r { return Ok(Val::I(r)); }
        }
    }
    let o = match op { IBin::Add => Bin::Add, IBin::Sub => Bin::Sub, IBin::Mul => Bin::Mul, IBin::UDiv => Bin::UDiv, IBin::SDiv => Bin::SDiv, IBin::URem => Bin::URem, IBin::SRem => Bin::SRem,
        IBin::And => Bin::And, IBin::Or => Bin::Or, IBin::Xor => Bin::Xor, IBin::Shl => Bin::Shl, IBin::LShr => Bin::LShr, IBin::AShr => Bin::AShr };
    let c = |v: &Val| match v { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None };
    match (c(x), c(y)) {
        (Some(a), Some(b)) => {
            if matches!(o, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && b == 0 { return er("division by zero reached"); }
            Ok(vconst(bin_const(o, a, b, w), w))
        }
        _ => Ok(val_of(bin(o, &e_of(x, w), &e_of(y, w)))),
    }
}
#[inline]
pub fn icmp_val(p: Pred, w: u16, x: &Val, y: &Val) -> Val {
    let c = |v: &Val| match v { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None };
    if let (Val::I(a), Val::I(b)) = (x, y) {
        let r = match p {
            Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
            _ => { let s = |v: u64| if w >= 64 { v as i64 } else { let k = 64 - w as u32; ((v << k) as i64) >> k }; let (a, b) = (s(*a), s(*b)); match p { Pred::Sgt => a > b, Pred::Sge => a >= b, Pred::Slt => a < b, _ => a <= b } }
        };
        return Val::I(r as u64);
    }
    if let (Some(a), Some(b)) = (c(x), c(y)) {
        let r = match p {
            Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
            Pred::Sgt => sext(a, w) > sext(b, w), Pred::Sge => sext(a, w) >= sext(b, w), Pred::Slt => sext(a, w) < sext(b, w), Pred::Sle => sext(a, w) <= sext(b, w),
        };
        return Val::I(r as u64);
    }
    let (a, b) = (e_of(x, w), e_of(y, w));
    val_of(match p {
        Pred::Eq => cmp(Cmp::Eq, &a, &b), Pred::Ne => not(&cmp(Cmp::Eq, &a, &b)),
        Pred::Ugt => cmp(Cmp::Ult, &b, &a), Pred::Uge => cmp(Cmp::Ule, &b, &a), Pred::Ult => cmp(Cmp::Ult, &a, &b), Pred::Ule => cmp(Cmp::Ule, &a, &b),
        Pred::Sgt => cmp(Cmp::Slt, &b, &a), Pred::Sge => cmp(Cmp::Sle, &b, &a), Pred::Slt => cmp(Cmp::Slt, &a, &b), Pred::Sle => cmp(Cmp::Sle, &a, &b),
    })
}
pub fn sel_val(c: &Val, x: &Val, y: &Val, w: u16) -> Val {
    match c { Val::I(k) => if k & 1 == 1 { x.clone() } else { y.clone() }, Val::S(c) => val_of(ite(c, &e_of(x, w), &e_of(y, w))), _ => panic!("sel") }
}
fn sel_ty(c: &Val, x: &Val, y: &Val, t: &Ty) -> Val {
    match t {
        Ty::Struct(f, _) => match (x, y) { (Val::A(p), Val::A(q)) => Val::A(Arc::new((0..f.len()).map(|i| sel_ty(c, &p[i], &q[i], &f[i])).collect())), _ => panic!() },
        Ty::Arr(_, e) | Ty::Vec(_, e) => match (x, y) { (Val::A(p), Val::A(q)) => Val::A(Arc::new((0..p.len()).map(|i| sel_ty(c, &p[i], &q[i], e)).collect())), _ => panic!() },
        t => sel_val(c, x, y, t.bits()),
    }
}
pub fn load_ty(m: &Mem, a: u64, t: &Ty) -> R<Val> {
    match t {
        Ty::Struct(f, _) => { let mut v = Vec::new(); for (i, ft) in f.iter().enumerate() { v.push(load_ty(m, a + t.field_off(i as u64), ft)?); } Ok(Val::A(Arc::new(v))) }
        Ty::Arr(n, e) => { let mut v = Vec::new(); for i in 0..*n { v.push(load_ty(m, a + i * e.size(), e)?); } Ok(Val::A(Arc::new(v))) }
        Ty::Vec(n, e) => {
            let eb = e.bits() as u64;
            if eb % 8 != 0 {
                let it = Ty::Int((*n as u64 * eb) as u16);
                return bitcast(&it, t, &load_ty(m, a, &it)?);
            }
            let mut v = Vec::new();
            for i in 0..*n as u64 { v.push(fault(m.load(a + i * eb / 8, (eb / 8) as usize, e.bits()))?); }
            Ok(Val::A(Arc::new(v)))
        }
        t => fault(m.load(a, t.store_size() as usize, t.bits())),
    }
}
pub fn store_ty(m: &mut Mem, a: u64, t: &Ty, v: &Val) -> R<()> {
    match (t, v) {
        (Ty::Struct(f, _), Val::A(x)) => { for (i, ft) in f.iter().enumerate() { store_ty(m, a + t.field_off(i as u64), ft, &x[i])?; } Ok(()) }
        (Ty::Arr(_, e), Val::A(x)) => { for (i, y) in x.iter().enumerate() { store_ty(m, a + i as u64 * e.size(), e, y)?; } Ok(()) }
        (Ty::Vec(n, e), Val::A(_)) if e.bits() % 8 != 0 => {
            let it = Ty::Int((*n as u64 * e.bits() as u64) as u16);
            let w = bitcast(t, &it, v)?;
            store_ty(m, a, &it, &w)
        }
        (Ty::Vec(_, e), Val::A(x)) => { let eb = e.bits() as u64 / 8; for (i, y) in x.iter().enumerate() { fault(m.store(a + i as u64 * eb, eb as usize, e.bits(), y))?; } Ok(()) }
        (t, v) => fault(m.store(a, t.store_size() as usize, t.bits(), v)),
    }
}
pub fn bitcast(from: &Ty, to: &Ty, v: &Val) -> R<Val> {
    // flatten to little-endian list of (width, val)
    let parts: Vec<(u16, Val)> = match (from, v) { (Ty::Vec(_, e), Val::A(x)) => x.iter().map(|y| (e.bits(), y.clone())).collect(), (t, v) => vec![(t.bits(), v.clone())] };
    let outs: Vec<u16> = match to { Ty::Vec(n, e) => vec![e.bits(); *n as usize], t => vec![t.bits()] };
    if parts.len() == outs.len() && parts.iter().zip(&outs).all(|(a, b)| a.0 == *b) {
        return Ok(match to { Ty::Vec(..) => Val::A(Arc::new(parts.into_iter().map(|p| p.1).collect())), _ => parts.into_iter().next().unwrap().1 });
    }
    let mut r = Vec::new();
    let mut pi = 0usize; // part index
    let mut po = 0u16; // bit offset inside part
    for w in &outs {
        let mut got = 0u16;
        let mut acc: Option<E> = None;
        let mut conc: u128 = 0;
        let mut allc = true;
        while got < *w {
            let (pw, pv) = &parts[pi];
            let take = (*w - got).min(*pw - po);
            match pv {
                Val::I(x) => { let b = ((*x as u128) >> po) & mask(take); conc |= b << got; }
                Val::W(x) => { let b = (**x >> po) & mask(take); conc |= b << got; }
                Val::S(_) => allc = false,
                _ => return er("bitcast"),
            }
            let piece = extract(&e_of(pv, *pw), po, take);
            acc = Some(match acc { None => piece, Some(l) => concat(&piece, &l) });
            got += take;
            po += take;
            if po == *pw { pi += 1; po = 0; }
        }
        r.push(if allc { vconst(conc, *w) } else { val_of(acc.unwrap()) });
    }
    Ok(match to { Ty::Vec(..) => Val::A(Arc::new(r)), _ => r.into_iter().next().unwrap() })
}
