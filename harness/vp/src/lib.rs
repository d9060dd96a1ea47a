//! Harness API. Under the symbolic executor every `__vp_*` function is a primitive (its body is
//! removed from the IR before optimisation); natively the bodies below replay a recorded input.
pub mod refrange;
pub mod refver;
use std::cell::RefCell;
use std::io::Write;

thread_local! {
    static INPUT: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static PROBE: RefCell<bool> = const { RefCell::new(false) };
}

fn next() -> u8 {
    INPUT.with(|i| {
        let mut i = i.borrow_mut();
        let p = i.1;
        i.1 += 1;
        i.0.get(p).copied().unwrap_or(0)
    })
}
fn emit(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}
fn text(p: *const u8, n: usize) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}

// ---- primitives (bodies = native replay) -------------------------------------------------
/// One fresh symbolic byte.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_byte() -> u8 { next() }
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_assume(c: bool) {
    if !c { emit("VP-ASSUME-FALSE"); std::process::exit(3); }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_assert(c: bool, p: *const u8, n: usize) {
    if !c { emit(&format!("VP-FAIL {}", text(p, n))); std::process::exit(1); }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_known(p: *const u8, n: usize) { emit(&format!("VP-KNOWN {}", text(p, n))); std::process::exit(4); }
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_cover(p: *const u8, n: usize) { emit(&format!("VP-COVER {}", text(p, n))); }
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_observe(v: u64) { emit(&format!("VP-OBS {v}")); }
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_observe_bytes(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let mut s = String::from("VP-OBSB ");
    for x in b { s.push_str(&format!("{x:02x}")); }
    emit(&s);
}
/// Concretise: enumerate every feasible value of `v` (one path each).
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_concrete(v: u64) -> u64 { v }
/// Describe the counterexample (native only; a no-op symbolically).
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_is_native() -> bool { true }

fn dl(name: &std::ffi::CStr) -> *mut core::ffi::c_void {
    extern "C" { fn dlsym(h: *mut core::ffi::c_void, n: *const core::ffi::c_char) -> *mut core::ffi::c_void; }
    unsafe { dlsym(std::ptr::null_mut(), name.as_ptr()) }
}
/// The `k`-th mutating file operation from now on fails with errno `e` (and all later ones if `sticky`); u64::MAX: none.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_fs_fault(k: u64, e: u64, sticky: u64) {
    let f = dl(c"__vp_fs_fault_native");
    if !f.is_null() { unsafe { std::mem::transmute::<_, extern "C" fn(u64, u64, i32)>(f)(k, e, sticky as i32) } }
    else if k != u64::MAX { emit("VP-NO-PRELOAD"); std::process::exit(5); }
}
/// Mutating file operations since the last `__vp_fs_fault`.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_fs_ops() -> u64 {
    let f = dl(c"__vp_fs_ops_native");
    if f.is_null() { 0 } else { unsafe { std::mem::transmute::<_, extern "C" fn() -> u64>(f)() } }
}
/// Directory listing order: 0 sorted, 1 reversed (natively whatever the file system does).
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_fs_order(_n: u64) {}
/// Bound `i` of the run (command line of the executor; VP_P<i> natively), default `d`.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_param(i: u64, d: u64) -> u64 {
    std::env::var(format!("VP_P{i}")).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
/// 0: hash order depends on key lengths only; >= 1000: the same, permuted by the seed;
/// 1..999: a hash of the content with this seed (enumerates symbolic keys).
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vp_hash_mode(_seed: u64) {}

// ---- convenience -------------------------------------------------------------------------
#[inline(always)]
pub fn byte() -> u8 { __vp_byte() }
#[inline(always)]
pub fn assume(c: bool) { __vp_assume(c) }
#[inline(always)]
pub fn check(c: bool, what: &'static str) { __vp_assert(c, what.as_ptr(), what.len()) }
#[inline(always)]
pub fn known(what: &'static str) { __vp_known(what.as_ptr(), what.len()) }
#[inline(always)]
pub fn cover(what: &'static str) { __vp_cover(what.as_ptr(), what.len()) }
#[inline(always)]
pub fn observe(v: u64) { __vp_observe(v) }
#[inline(always)]
pub fn observe_str(s: &str) { __vp_observe_bytes(s.as_ptr(), s.len()) }
#[inline(always)]
pub fn native() -> bool { __vp_is_native() }

#[inline(always)]
pub fn param(i: u64, d: u64) -> u64 { __vp_param(i, d) }
#[inline(always)]
pub fn hash_mode(seed: u64) { __vp_hash_mode(seed) }

/// Nondeterministic choice 0..n (one path per value).
#[inline(never)]
pub fn choice(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    __vp_concrete(b as u64) as u8
}
#[inline(never)]
pub fn flag() -> bool { choice(2) == 1 }

/// Symbolic byte constrained to `set` (kept symbolic: no fork).
#[inline(never)]
pub fn byte_of(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for &x in set { ok |= b == x; }
    assume(ok);
    b
}
/// Symbolic string of exactly `n` bytes over the ASCII alphabet `set`.
#[inline(never)]
pub fn string_of(n: usize, set: &[u8]) -> String {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n { v.push(byte_of(set)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Symbolic string of `lo..=hi` bytes over `set`.
#[inline(never)]
pub fn string_upto(lo: usize, hi: usize, set: &[u8]) -> String {
    let n = lo + choice((hi - lo + 1) as u8) as usize;
    string_of(n, set)
}
/// Any ASCII string of exactly `n` bytes.
#[inline(never)]
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n { let b = byte(); assume(b < 0x80); v.push(b); }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Text after a pattern: `d` = a digit, `n` = 1-9, `w` = a-z, `W` = letter or `_`; anything else literal.
#[inline(never)]
pub fn shaped(sh: &str) -> String {
    let mut s = String::new();
    for c in sh.bytes() {
        let c = match c {
            b'd' => { let c = byte(); assume(c >= b'0' && c <= b'9'); c }
            b'n' => { let c = byte(); assume(c >= b'1' && c <= b'9'); c }
            b'w' => { let c = byte(); assume(c >= b'a' && c <= b'z'); c }
            b'W' => { let c = byte(); assume((c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_'); c }
            c => c,
        };
        s.push(c as char);
    }
    s
}
/// Native show: prints a label and value for the counterexample description.
#[macro_export]
macro_rules! show {
    ($($t:tt)*) => { if $crate::native() { $crate::emit_show(format!($($t)*)); } };
}
#[inline(never)]
pub fn emit_show(s: String) { emit(&format!("VP-SHOW {s}")); }

/// Native driver: `<bin> <harness> <input-hex-file>`.
pub fn native_main(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let f = table.iter().find(|t| t.0 == a[1]).expect("unknown harness").1;
    let hex = std::fs::read_to_string(&a[2]).expect("input");
    let hex = hex.trim();
    let v: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    INPUT.with(|i| *i.borrow_mut() = (v, 0));
    PROBE.with(|p| *p.borrow_mut() = true);
    f();
    emit("VP-DONE");
}
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        fn main() { $crate::native_main(&[$((stringify!($n), $n as extern "C" fn())),*]); }
    };
}

/// A scratch directory of this run.
pub fn scratch() -> String { if __vp_is_native() { std::env::var("VP_SCRATCH").expect("VP_SCRATCH") } else { "/s".to_string() } }
pub fn fs_fault(k: u64, errno: u64, sticky: bool) { __vp_fs_fault(k, errno, sticky as u64) }
pub fn fs_clear() { __vp_fs_fault(u64::MAX, 0, 0) }
pub fn fs_ops() -> u64 { __vp_fs_ops() }
pub fn fs_order(n: u64) { __vp_fs_order(n) }
