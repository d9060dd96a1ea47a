//! Z3 back end (C API). One context per worker thread.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::Arc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: Sym, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Debug)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 {
    ctx: Ctx,
    solver: Solver,
    cache: HashMap<*const Node, (Ast, bool, E)>, // (ast, is_bool)
    vars: HashMap<(u32, u16), Ast>,
    pub stats: Stats,
    qcache: HashMap<Vec<u64>, Res>,
    pub timeout_ms: u32,
}
#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub time_us: u64, pub max_us: u64 }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            let lg = CString::new("QF_BV").unwrap();
            let solver = if std::env::var("RSYM_SIMPLE").is_ok() { Z3_mk_simple_solver(ctx) } else { Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg.as_ptr())) };
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let tk = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, tk.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Z3 { ctx, solver, cache: HashMap::new(), vars: HashMap::new(), stats: Stats::default(), qcache: HashMap::new(), timeout_ms }
        }
    }
    fn bvvar(&mut self, id: u32, w: u16) -> Ast {
        if let Some(a) = self.vars.get(&(id, w)) { return *a; }
        unsafe {
            let a = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, id as c_int), Z3_mk_bv_sort(self.ctx, w as c_uint));
            Z3_inc_ref(self.ctx, a);
            self.vars.insert((id, w), a);
            a
        }
    }
    fn num(&self, v: u128, w: u16) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn as_bv(&mut self, e: &E) -> Ast {
        let (a, b) = self.tr(e);
        if !b { return a; }
        unsafe {
            let one = self.num(1, 1); Z3_inc_ref(self.ctx, one);
            let zero = self.num(0, 1); Z3_inc_ref(self.ctx, zero);
            let r = Z3_mk_ite(self.ctx, a, one, zero);
            Z3_inc_ref(self.ctx, r); // leaked into context until cache clear; acceptable
            Z3_dec_ref(self.ctx, one); Z3_dec_ref(self.ctx, zero);
            r
        }
    }
    fn as_bool(&mut self, e: &E) -> Ast {
        let (a, b) = self.tr(e);
        if b { return a; }
        unsafe {
            let one = self.num(1, 1); Z3_inc_ref(self.ctx, one);
            let r = Z3_mk_eq(self.ctx, a, one);
            Z3_inc_ref(self.ctx, r);
            Z3_dec_ref(self.ctx, one);
            r
        }
    }
    fn tr(&mut self, e: &E) -> (Ast, bool) {
        if let Some((a, b, _)) = self.cache.get(&Arc::as_ptr(e)) { return (*a, *b); }
        let c = self.ctx;
        let (ast, isb) = unsafe {
            match &e.k {
                K::Const(v) => if e.w == 1 { (if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }, true) } else { (self.num(*v, e.w), false) },
                K::Var(v) => (self.bvvar(*v, e.w), false),
                K::Bin(o, x, y) => {
                    if e.w == 1 && matches!(o, Bin::And | Bin::Or | Bin::Xor) {
                        let p = self.as_bool(x); let q = self.as_bool(y);
                        let arr = [p, q];
                        (match o { Bin::And => Z3_mk_and(c, 2, arr.as_ptr()), Bin::Or => Z3_mk_or(c, 2, arr.as_ptr()), _ => Z3_mk_xor(c, p, q) }, true)
                    } else {
                        let p = self.as_bv(x); let q = self.as_bv(y);
                        let f = match o {
                            Bin::Add => Z3_mk_bvadd, Bin::Sub => Z3_mk_bvsub, Bin::Mul => Z3_mk_bvmul,
                            Bin::UDiv => Z3_mk_bvudiv, Bin::SDiv => Z3_mk_bvsdiv, Bin::URem => Z3_mk_bvurem, Bin::SRem => Z3_mk_bvsrem,
                            Bin::And => Z3_mk_bvand, Bin::Or => Z3_mk_bvor, Bin::Xor => Z3_mk_bvxor,
                            Bin::Shl => Z3_mk_bvshl, Bin::LShr => Z3_mk_bvlshr, Bin::AShr => Z3_mk_bvashr,
                        };
                        (f(c, p, q), false)
                    }
                }
                K::Cmp(o, x, y) => {
                    let p = self.as_bv(x); let q = self.as_bv(y);
                    let f = match o { Cmp::Eq => Z3_mk_eq, Cmp::Ult => Z3_mk_bvult, Cmp::Ule => Z3_mk_bvule, Cmp::Slt => Z3_mk_bvslt, Cmp::Sle => Z3_mk_bvsle };
                    (f(c, p, q), true)
                }
                K::Not(x) => if e.w == 1 { let p = self.as_bool(x); (Z3_mk_not(c, p), true) } else { let p = self.as_bv(x); (Z3_mk_bvnot(c, p), false) },
                K::Concat(h, l) => { let p = self.as_bv(h); let q = self.as_bv(l); (Z3_mk_concat(c, p, q), false) }
                K::Extract(x, lo) => { let p = self.as_bv(x); (Z3_mk_extract(c, (*lo + e.w - 1) as c_uint, *lo as c_uint, p), false) }
                K::ZExt(x) => { let p = self.as_bv(x); (Z3_mk_zero_ext(c, (e.w - x.w) as c_uint, p), false) }
                K::SExt(x) => { let p = self.as_bv(x); (Z3_mk_sign_ext(c, (e.w - x.w) as c_uint, p), false) }
                K::Ite(i, x, y) => {
                    let ci = self.as_bool(i);
                    if e.w == 1 { let p = self.as_bool(x); let q = self.as_bool(y); (Z3_mk_ite(c, ci, p, q), true) }
                    else { let p = self.as_bv(x); let q = self.as_bv(y); (Z3_mk_ite(c, ci, p, q), false) }
                }
            }
        };
        if ast.is_null() { panic!("z3 returned a null term"); }
        unsafe { Z3_inc_ref(c, ast); }
        self.cache.insert(Arc::as_ptr(e), (ast, isb, e.clone()));
        (ast, isb)
    }
    /// Decide the conjunction of `cs`. On sat, returns values of every variable occurring in `cs`.
    pub fn check(&mut self, cs: &[&E]) -> Res {
        let mut key: Vec<u64> = cs.iter().map(|e| e.hash).collect();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) { self.stats.cache_hits += 1; return r.clone(); }
        let t0 = Instant::now();
        if self.cache.len() > 300_000 {
            for (_, (a, _, _)) in self.cache.drain() { unsafe { Z3_dec_ref(self.ctx, a); } }
        }
        let mut vars: Vec<u32> = Vec::new();
        let mut seen = Default::default();
        for e in cs { collect_vars(e, &mut seen, &mut vars); }
        let r = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for e in cs { let a = self.as_bool(e); Z3_solver_assert(self.ctx, self.solver, a); }
            let st = Z3_solver_check(self.ctx, self.solver);
            let r = match st {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = Vec::new();
                    for v in &vars {
                        let a = self.bvvar(*v, 8);
                        let mut o: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            Z3_inc_ref(self.ctx, o);
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(self.ctx, o, &mut x);
                            Z3_dec_ref(self.ctx, o);
                            out.push((*v, x));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            r
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        if us > self.stats.max_us { self.stats.max_us = us; }
        match &r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        // soundness guard: never believe a model that does not satisfy the query
        if let Res::Sat(m) = &r {
            let mx = m.iter().map(|x| x.0).max().unwrap_or(0) as usize;
            let mut v = vec![0u64; mx + 1];
            for (i, x) in m { v[*i as usize] = *x; }
            let mut ev = Eval::new(&v);
            for e in cs { if ev.eval(e) != 1 { panic!("solver model does not satisfy the query (translation bug)"); } }
        }
        if self.qcache.len() > 500_000 { self.qcache.clear(); }
        self.qcache.insert(key, r.clone());
        r
    }
}
