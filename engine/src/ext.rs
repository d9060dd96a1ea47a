//! Models of external functions, LLVM intrinsics and harness primitives.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::sync::Arc;

pub use crate::fs::Fs;

type W<'a> = &'a mut Worker;
type S<'a> = &'a mut State;
fn fl<T>(r: Result<T, Fault>) -> R<T> { r.map_err(|f| End::Error(format!("memory fault at {:#x}", f.0))) }
const U: Val = Val::I(0);

// ---------------- harness primitives ----------------
fn vp_byte(w: W, st: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(Val::S(w.new_var(st))) }
fn vp_assume(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    match &a[0] {
        Val::I(x) => if *x & 1 == 1 { Ok(U) } else { Err(End::Infeasible) },
        Val::S(e) => {
            if let Some(k) = w.resolve(st, e) { return if k == 1 { Ok(U) } else { Err(End::Infeasible) }; }
            if w.eval(st, e) != 1 {
                match w.feasible(st, e)? { None => return Err(End::Infeasible), Some(d) => for (v, x) in d { st.model[v as usize] = x; } }
            }
            w.add(st, e);
            Ok(U)
        }
        _ => er("assume"),
    }
}
fn vp_assert(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (p, n) = (w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let id = text(st, p, n)?;
    match &a[0] {
        Val::I(x) => {
            w.asserts.entry(id.clone()).or_insert((0, 0)).0 += 1;
            if *x & 1 == 1 { Ok(U) } else { Err(End::Fail { id, model: st.model.clone() }) }
        }
        Val::S(e) => {
            w.asserts.entry(id.clone()).or_insert((0, 0)).1 += 1;
            let ne = not(e);
            let r = match w.solve(st, &ne) {
                Err(End::Error(m)) if m == UNKNOWN => {
                    if w.eval(st, e) != 1 { return Err(End::Fail { id, model: st.model.clone() }); }
                    w.undecided(st, "assertion");
                    w.add(st, e);
                    return Ok(U);
                }
                r => r?,
            };
            match r {
                None => { Ok(U) }
                Some(d) => { let mut m = st.model.clone(); for (v, x) in d { m[v as usize] = x; } Err(End::Fail { id, model: m }) }
            }
        }
        _ => er("assert"),
    }
}
fn text(st: &State, p: u64, n: u64) -> R<String> {
    let b = fl(st.mem.bytes(p, n))?;
    Ok(String::from_utf8_lossy(&b.iter().map(|v| match v { Val::I(x) => *x as u8, _ => b'?' }).collect::<Vec<u8>>()).into_owned())
}
fn vp_known(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (p, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?);
    Err(End::Known { id: text(st, p, n)? })
}
fn vp_cover(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (p, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?);
    let t = text(st, p, n)?;
    *w.cov_names.entry(t.clone()).or_insert(0) += 1;
    st.obs.push(Obs::Cover(t));
    Ok(U)
}
fn vp_observe(_: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { st.obs.push(Obs::U(a[0].clone())); Ok(U) }
fn vp_observe_bytes(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (p, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?);
    let b = fl(st.mem.bytes(p, n))?;
    st.obs.push(Obs::B(b));
    Ok(U)
}
fn vp_concrete(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { Ok(Val::I(w.cu64(st, &a[0])?)) }
fn vp_is_native(_: W, _: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(Val::I(0)) }
fn vp_param(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let i = w.cu64(st, &a[0])? as usize; let d = w.cu64(st, &a[1])?; Ok(Val::I(w.sh.cfg.params.get(i).copied().flatten().unwrap_or(d))) }
fn vp_hash_mode(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { st.hash_mode = w.cu64(st, &a[0])?; Ok(U) }

// ---------------- panics ----------------
fn location(st: &State, p: u64) -> String {
    let f = (|| -> Option<String> {
        let fp = st.mem.load_u64(p, 8)?;
        let n = st.mem.load_u64(p + 8, 8)?;
        let line = st.mem.load_u64(p + 16, 4)?;
        if n > 512 { return None; }
        let t = text(st, fp, n).ok()?;
        Some(format!("{}:{}", t, line))
    })();
    f.unwrap_or_else(|| "?".into())
}
fn panic_last(_: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let loc = match a.last() { Some(Val::I(p)) => location(st, *p), _ => "?".into() };
    // name the innermost non-core frame for readability
    let fr = st.frames.iter().rev().map(|f| f.f.name.as_str()).find(|n| n.contains("rez_next") || n.contains("h_")).unwrap_or("?").to_string();
    Err(End::Panic { loc: format!("{} (in {})", loc, demangle(&fr)) })
}
fn panic_hook(_: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let loc = match a.get(1).or(a.get(2)) { Some(Val::I(p)) => location(st, *p), _ => "?".into() };
    Err(End::Panic { loc })
}
fn abort(_: W, _: S, _: &CallI, _: &[Val]) -> R<Val> { Err(End::Panic { loc: "abort()".into() }) }
pub fn demangle(s: &str) -> String {
    // keep just the identifiers of a v0 name
    let b = s.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = s[i..j].parse().unwrap_or(0);
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if n >= 2 && n < 80 && st + n <= b.len() && s.is_char_boundary(st + n) {
                let id = &s[st..st + n];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !id.as_bytes()[0].is_ascii_digit() { out.push(id.into()); i = st + n; continue; }
            }
            i = j;
        } else { i += 1; }
    }
    if out.is_empty() { s.into() } else { out.join("::") }
}

// ---------------- hashing ----------------
fn mix64(mut x: u64) -> u64 { x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^ (x >> 32) }
fn sip_write(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (h, p, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let cur = match fl(st.mem.load(h, 8, 64))? { Val::I(x) => x, _ => return er("hasher state") };
    let mut x = mix64(cur.wrapping_mul(31).wrapping_add(n + 1));
    if st.hash_mode != 0 { x ^= mix64(st.hash_mode.wrapping_add(n << 20)); }
    if st.hash_mode != 0 && st.hash_mode < 1000 {
        for i in 0..n { let b = fl(st.mem.byte(p + i))?; let b = w.cu64(st, &b)?; x = mix64(x ^ (b + 1).wrapping_mul(0x9E3779B97F4A7C15)); }
    }
    fl(st.mem.store_u64(h, 8, x))?;
    Ok(U)
}
fn sip_finish(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let h = w.cu64(st, &a[0])?;
    match fl(st.mem.load(h, 8, 64))? { Val::I(x) => Ok(Val::I(mix64(x ^ 0x5555))), _ => er("hasher state") }
}

// ---------------- memory ----------------
fn malloc(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let n = w.cu64(st, &a[0])?; Ok(Val::I(st.malloc(n, 16)?)) }
fn calloc(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let n = w.cu64(st, &a[0])?.wrapping_mul(w.cu64(st, &a[1])?);
    let p = st.malloc(n, 16)?;
    if p != 0 { fl(st.mem.fill(p, n, &Val::I(0)))?; }
    Ok(Val::I(p))
}
fn free(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let p = w.cu64(st, &a[0])?; st.mfree(p)?; Ok(U) }
fn realloc(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (p, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?);
    if p == 0 { return Ok(Val::I(st.malloc(n, 16)?)); }
    let old = st.msize(p);
    if n <= old { return Ok(Val::I(p)); }
    let q = st.malloc(n, 16)?;
    if q == 0 { return Ok(Val::I(0)); }
    fl(st.mem.copy(q, p, old.min(n)))?;
    st.mfree(p)?;
    Ok(Val::I(q))
}
fn posix_memalign(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (pp, al, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let p = st.malloc(n, al)?;
    fl(st.mem.store_u64(pp, 8, p))?;
    Ok(Val::I(0))
}
fn memcpy(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (d, s, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    fl(st.mem.copy(d, s, n))?;
    Ok(Val::I(d))
}
fn memset(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (d, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[2])?);
    let v = match &a[1] { Val::I(x) => Val::I(x & 0xff), Val::S(e) => val_of(extract(e, 0, 8)), _ => return er("memset") };
    let _ = c;
    fl(st.mem.fill(d, n, &v))?;
    Ok(Val::I(d))
}
fn cmpbytes(w: W, st: S, a: &[Val]) -> R<(Vec<Val>, Vec<Val>)> {
    let n = w.cu64(st, &a[2])?;
    if n == 0 { return Ok((vec![], vec![])); }
    let (p, q) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?);
    Ok((fl(st.mem.bytes(p, n))?, fl(st.mem.bytes(q, n))?))
}
fn bcmp(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (x, y) = cmpbytes(w, st, a)?;
    let mut acc = konst(1, 1);
    for (p, q) in x.iter().zip(&y) {
        match (p, q) { (Val::I(a), Val::I(b)) => if a != b { return Ok(Val::I(1)); }, (p, q) => acc = bin(Bin::And, &acc, &cmp(Cmp::Eq, &e_of(p, 8), &e_of(q, 8))) }
    }
    Ok(val_of(ite(&acc, &konst(0, 32), &konst(1, 32))))
}
fn memcmp(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (x, y) = cmpbytes(w, st, a)?;
    let mut acc = konst(0, 32);
    for (p, q) in x.iter().zip(&y).rev() {
        match (p, q) {
            (Val::I(a), Val::I(b)) => if a != b { acc = konst(if a < b { 0xffff_ffff } else { 1 }, 32); },
            (p, q) => {
                let (p, q) = (e_of(p, 8), e_of(q, 8));
                let ne = ite(&cmp(Cmp::Ult, &p, &q), &konst(0xffff_ffff, 32), &konst(1, 32));
                acc = ite(&cmp(Cmp::Eq, &p, &q), &acc, &ne);
            }
        }
    }
    Ok(val_of(acc))
}
fn strlen(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[0])?;
    let mut i = 0;
    loop {
        let b = fl(st.mem.byte(p + i))?;
        match b {
            Val::I(0) => return Ok(Val::I(i)),
            Val::I(_) => {}
            Val::S(e) => {
                // is the byte possibly zero?
                let z = cmp(Cmp::Eq, &e, &konst(0, 8));
                match w.resolve(st, &z) { Some(0) => {} Some(_) => return Ok(Val::I(i)), None => { let v = w.concretize(st, &z)?; if v == 1 { return Ok(Val::I(i)); } } }
            }
            _ => return er("strlen"),
        }
        i += 1;
    }
}
fn memchr(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (p, c, n) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    for i in 0..n {
        match fl(st.mem.byte(p + i))? {
            Val::I(x) => if x == c & 0xff { return Ok(Val::I(p + i)); },
            Val::S(e) => { let z = cmp(Cmp::Eq, &e, &konst((c & 0xff) as u128, 8)); if w.concretize(st, &z)? == 1 { return Ok(Val::I(p + i)); } }
            _ => return er("memchr"),
        }
    }
    Ok(Val::I(0))
}

// ---------------- misc libc ----------------
fn ret0(_: W, _: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(U) }
fn ret_first(_: W, _: S, _: &CallI, a: &[Val]) -> R<Val> { Ok(a[0].clone()) }
fn key_create(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[0])?;
    st.tls.push(0);
    let k = st.tls.len() as u64;
    fl(st.mem.store_u64(p, 4, k))?;
    Ok(U)
}
fn key_set(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (k, v) = (w.cu64(st, &a[0])? as u32 as usize, w.cu64(st, &a[1])?);
    if k == 0 || k > st.tls.len() { return Ok(Val::I(22)); }
    st.tls[k - 1] = v;
    Ok(U)
}
fn key_get(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let k = w.cu64(st, &a[0])? as u32 as usize;
    Ok(Val::I(if k == 0 || k > st.tls.len() { 0 } else { st.tls[k - 1] }))
}
fn errno_loc(_: W, _: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(Val::I(ERRNO_ADDR)) }
fn getenv(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[0])?;
    let n = fl(st.mem.cstr(p))?;
    for (k, addr) in st.env.clone().iter() {
        if k.len() != n.len() { continue; }
        let mut all = true;
        for (x, y) in k.iter().zip(&n) { if w.cu64(st, y)? != *x as u64 { all = false; break; } }
        if all { return Ok(Val::I(*addr)); }
    }
    Ok(U)
}
fn syscall(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let n = w.cu64(st, &a[0])?;
    match n {
        318 => { let (p, k) = (w.cu64(st, &a[1])?, w.cu64(st, &a[2])?); fl(st.mem.fill(p, k, &Val::I(7)))?; Ok(Val::I(k)) }
        202 => { let op = w.cu64(st, &a[2])? & 0x7f; if op == 1 || op == 10 { Ok(Val::I(0)) } else { er("futex wait (deadlock or blocking)") } }
        186 => Ok(Val::I(1)),
        332 => { let v = enosys(w, st)?; Ok(v) }
        _ => er(format!("syscall {}", n)),
    }
}
fn enosys(_: W, st: S) -> R<Val> { fl(st.mem.store_u64(ERRNO_ADDR, 4, 38))?; Ok(Val::I(u64::MAX)) }
fn clock_gettime(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[1])?;
    st.clock += 1;
    fl(st.mem.store_u64(p, 8, 1_700_000_000))?;
    fl(st.mem.store_u64(p + 8, 8, st.clock * 1000))?;
    Ok(U)
}
fn write_fd(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let fd = w.cu64(st, &a[0])? as u32;
    if fd == 1 || fd == 2 { let n = w.cu64(st, &a[2])?; return Ok(Val::I(n)); }
    er("write to file descriptor")
}
fn sched_getaffinity(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let (k, p) = (w.cu64(st, &a[1])?, w.cu64(st, &a[2])?); fl(st.mem.fill(p, k, &Val::I(0)))?; fl(st.mem.store_u64(p, 1, 3))?; Ok(Val::I(0)) }
fn strerror_r(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (e, p, n) = (w.cu64(st, &a[0])? as u32, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let t = format!("error {}\0", e);
    if n >= t.len() as u64 { for (i, b) in t.bytes().enumerate() { fl(st.mem.store_u64(p + i as u64, 1, b as u64))?; } }
    Ok(Val::I(0))
}
fn getrandom(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let (p, k) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?); fl(st.mem.fill(p, k, &Val::I(7)))?; Ok(Val::I(k)) }
fn sysconf(_: W, _: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(Val::I(4096)) }
fn getcwd(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let p = w.cu64(st, &a[0])?; fl(st.mem.write(p, b"/work\0"))?; Ok(Val::I(p)) }

// ---------------- LLVM intrinsics ----------------
fn map2(c: &CallI, a: &[Val], f: impl Fn(&Val, &Val, u16) -> R<Val>) -> R<Val> {
    match (&c.argw[0], &a[0], &a[1]) {
        (Ty::Vec(_, e), Val::A(x), Val::A(y)) => { let mut v = Vec::new(); for (p, q) in x.iter().zip(y.iter()) { v.push(f(p, q, e.bits())?); } Ok(Val::A(Arc::new(v))) }
        (t, x, y) => f(x, y, t.bits()),
    }
}
fn map1(c: &CallI, a: &[Val], f: impl Fn(&Val, u16) -> R<Val>) -> R<Val> {
    match (&c.argw[0], &a[0]) {
        (Ty::Vec(_, e), Val::A(x)) => { let mut v = Vec::new(); for p in x.iter() { v.push(f(p, e.bits())?); } Ok(Val::A(Arc::new(v))) }
        (t, x) => f(x, t.bits()),
    }
}
fn umin(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map2(c, a, |x, y, w| Ok(sel_val(&icmp_val(Pred::Ult, w, x, y), x, y, w))) }
fn umax(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map2(c, a, |x, y, w| Ok(sel_val(&icmp_val(Pred::Ugt, w, x, y), x, y, w))) }
fn smin(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map2(c, a, |x, y, w| Ok(sel_val(&icmp_val(Pred::Slt, w, x, y), x, y, w))) }
fn smax(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map2(c, a, |x, y, w| Ok(sel_val(&icmp_val(Pred::Sgt, w, x, y), x, y, w))) }
fn cnum(v: &Val) -> Option<u128> { match v { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None } }
fn ctlz(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> {
    map1(c, a, |x, w| Ok(match cnum(x) {
        Some(v) => vconst((v.leading_zeros() as u128) - (128 - w as u128), w),
        None => { let e = e_of(x, w); let mut acc = konst(w as u128, w); for i in 0..w { acc = ite(&extract(&e, i, 1), &konst((w - 1 - i) as u128, w), &acc); } val_of(acc) }
    }))
}
fn cttz(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> {
    map1(c, a, |x, w| Ok(match cnum(x) {
        Some(v) => vconst(if v == 0 { w as u128 } else { v.trailing_zeros() as u128 }, w),
        None => { let e = e_of(x, w); let mut acc = konst(w as u128, w); for i in (0..w).rev() { acc = ite(&extract(&e, i, 1), &konst(i as u128, w), &acc); } val_of(acc) }
    }))
}
fn ctpop(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> {
    map1(c, a, |x, w| Ok(match cnum(x) {
        Some(v) => vconst(v.count_ones() as u128, w),
        None => { let e = e_of(x, w); let mut acc = konst(0, w); for i in 0..w { acc = bin(Bin::Add, &acc, &zext(&extract(&e, i, 1), w)); } val_of(acc) }
    }))
}
fn bswap(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> {
    map1(c, a, |x, w| { let e = e_of(x, w); let mut acc: Option<E> = None; for i in 0..w / 8 { let b = extract(&e, i * 8, 8); acc = Some(match acc { None => b, Some(h) => concat(&h, &b) }); } Ok(val_of(acc.unwrap())) })
}
fn bitreverse(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> {
    map1(c, a, |x, w| { let e = e_of(x, w); let mut acc: Option<E> = None; for i in 0..w { let b = extract(&e, i, 1); acc = Some(match acc { None => b, Some(h) => concat(&h, &b) }); } Ok(val_of(acc.unwrap())) })
}
fn iabs(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map1(c, a, |x, w| { let n = bin_val(IBin::Sub, w, &vconst(0, w), x)?; Ok(sel_val(&icmp_val(Pred::Slt, w, x, &vconst(0, w)), &n, x, w)) }) }
fn fsh(left: bool, c: &CallI, a: &[Val]) -> R<Val> {
    let w = c.argw[0].bits();
    if w == 0 { return er("vector fsh"); }
    let s = match cnum(&a[2]) { Some(s) => (s % w as u128) as u16, None => {
        // symbolic amount: or of shifts
        let (x, y, s) = (e_of(&a[0], w), e_of(&a[1], w), e_of(&a[2], w));
        let sm = bin(Bin::URem, &s, &konst(w as u128, w));
        let inv = bin(Bin::Sub, &konst(w as u128, w), &sm);
        let z = cmp(Cmp::Eq, &sm, &konst(0, w));
        let r = if left { ite(&z, &x, &bin(Bin::Or, &bin(Bin::Shl, &x, &sm), &bin(Bin::LShr, &y, &inv))) }
            else { ite(&z, &y, &bin(Bin::Or, &bin(Bin::Shl, &x, &inv), &bin(Bin::LShr, &y, &sm))) };
        return Ok(val_of(r));
    } };
    let (x, y) = (e_of(&a[0], w), e_of(&a[1], w));
    let r = if left { if s == 0 { x } else { concat(&extract(&x, 0, w - s), &extract(&y, w - s, s)) } }
        else if s == 0 { y } else { concat(&extract(&x, 0, s), &extract(&y, s, w - s)) };
    Ok(val_of(r))
}
fn fshl(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { fsh(true, c, a) }
fn fshr(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { fsh(false, c, a) }
fn wo(kind: u8, signed: bool, c: &CallI, a: &[Val]) -> R<(Val, Val)> {
    let w = c.argw[0].bits();
    let (op, ib) = match kind { 0 => (Bin::Add, IBin::Add), 1 => (Bin::Sub, IBin::Sub), _ => (Bin::Mul, IBin::Mul) };
    if let (Some(x), Some(y)) = (cnum(&a[0]), cnum(&a[1])) {
        let r = bin_const(op, x, y, w);
        let of = if signed {
            let (p, q) = (sext(x, w), sext(y, w));
            let t = match kind { 0 => p.checked_add(q), 1 => p.checked_sub(q), _ => p.checked_mul(q) };
            match t { Some(t) => sext(r, w) != t, None => true }
        } else {
            let t = match kind { 0 => x.checked_add(y), 1 => x.checked_sub(y), _ => x.checked_mul(y) };
            match t { Some(t) => t != r, None => true }
        };
        return Ok((vconst(r, w), Val::I(of as u64)));
    }
    let r = bin_val(ib, w, &a[0], &a[1])?;
    let (x, y) = (e_of(&a[0], w), e_of(&a[1], w));
    let of = match (kind, signed) {
        (0, false) => cmp(Cmp::Ult, &e_of(&r, w), &x),
        (1, false) => cmp(Cmp::Ult, &x, &y),
        (2, _) => {
            if w > 64 { return er("wide mul overflow"); }
            let w2 = 2 * w;
            let (p, q) = if signed { (sext_e(&x, w2), sext_e(&y, w2)) } else { (zext(&x, w2), zext(&y, w2)) };
            let t = bin(Bin::Mul, &p, &q);
            let re = if signed { sext_e(&e_of(&r, w), w2) } else { zext(&e_of(&r, w), w2) };
            not(&cmp(Cmp::Eq, &t, &re))
        }
        (_, true) => {
            let w2 = w + 1;
            let t = bin(op, &sext_e(&x, w2), &sext_e(&y, w2));
            not(&cmp(Cmp::Eq, &t, &sext_e(&e_of(&r, w), w2)))
        }
        _ => return er("wo"),
    };
    Ok((r, val_of(of)))
}
macro_rules! wos { ($($n:ident $k:expr, $s:expr;)*) => { $(fn $n(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { let (r, o) = wo($k, $s, c, a)?; Ok(Val::A(Arc::new(vec![r, o]))) })* } }
wos! { uadd_o 0, false; usub_o 1, false; umul_o 2, false; sadd_o 0, true; ssub_o 1, true; smul_o 2, true; }
fn uadd_sat(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map2(c, a, |x, y, w| { let r = bin_val(IBin::Add, w, x, y)?; Ok(sel_val(&icmp_val(Pred::Ult, w, &r, x), &vconst(u128::MAX, w), &r, w)) }) }
fn usub_sat(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { map2(c, a, |x, y, w| { let r = bin_val(IBin::Sub, w, x, y)?; Ok(sel_val(&icmp_val(Pred::Ult, w, x, y), &vconst(0, w), &r, w)) }) }
fn s_sat(kind: u8, c: &CallI, a: &[Val]) -> R<Val> {
    let w = c.argw[0].bits();
    let (r, o) = wo(kind, true, c, a)?;
    let neg = icmp_val(Pred::Slt, w, &a[0], &vconst(0, w));
    let sat = sel_val(&neg, &vconst(1u128 << (w - 1), w), &vconst((1u128 << (w - 1)) - 1, w), w);
    Ok(sel_val(&o, &sat, &r, w))
}
fn sadd_sat(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { s_sat(0, c, a) }
fn ssub_sat(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { s_sat(1, c, a) }
fn cmp3(s: bool, c: &CallI, a: &[Val]) -> R<Val> {
    let w = c.argw[0].bits();
    let rw = c.ret.bits();
    let lt = icmp_val(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
    let gt = icmp_val(if s { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1]);
    let g = sel_val(&gt, &vconst(1, rw), &vconst(0, rw), rw);
    Ok(sel_val(&lt, &vconst(u128::MAX, rw), &g, rw))
}
fn ucmp(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { cmp3(false, c, a) }
fn scmp(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { cmp3(true, c, a) }
fn reduce(a: &[Val], c: &CallI, f: impl Fn(&Val, &Val, u16) -> R<Val>) -> R<Val> {
    let w = match &c.argw[0] { Ty::Vec(_, e) => e.bits(), _ => return er("reduce") };
    if let Val::A(x) = &a[0] { let mut acc = x[0].clone(); for y in &x[1..] { acc = f(&acc, y, w)?; } Ok(acc) } else { er("reduce") }
}
fn red_or(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { reduce(a, c, |x, y, w| bin_val(IBin::Or, w, x, y)) }
fn red_and(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { reduce(a, c, |x, y, w| bin_val(IBin::And, w, x, y)) }
fn red_add(_: W, _: S, c: &CallI, a: &[Val]) -> R<Val> { reduce(a, c, |x, y, w| bin_val(IBin::Add, w, x, y)) }
fn fp1(f: fn(f64) -> f64, w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let x = w.cu64(st, &a[0])?;
    Ok(Val::I(if c.argw[0].bits() == 64 { f(f64::from_bits(x)).to_bits() } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 }))
}
fn fabs(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::abs, w, st, c, a) }
fn ffloor(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::floor, w, st, c, a) }
fn fceil(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::ceil, w, st, c, a) }
fn ftrunc(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::trunc, w, st, c, a) }
fn fround(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::round, w, st, c, a) }
fn fsqrt(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::sqrt, w, st, c, a) }
fn flog10(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::log10, w, st, c, a) }
fn flog2(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::log2, w, st, c, a) }
fn flog(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp1(f64::ln, w, st, c, a) }
fn fp2(f: fn(f64, f64) -> f64, w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (x, y) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?);
    Ok(Val::I(if c.argw[0].bits() == 64 { f(f64::from_bits(x), f64::from_bits(y)).to_bits() } else { (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u64 }))
}
fn fmin(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp2(f64::min, w, st, c, a) }
fn fmax(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp2(f64::max, w, st, c, a) }
fn fpow(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { fp2(f64::powf, w, st, c, a) }
fn fptoi_sat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let x = w.cu64(st, &a[0])?;
    let d = if c.argw[0].bits() == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    let rw = c.ret.bits();
    let r = if d.is_nan() { 0 } else { let m = mask(rw); let v = d as u128; v.min(m) };
    Ok(vconst(r, rw))
}
fn fptosi_sat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let x = w.cu64(st, &a[0])?;
    let d = if c.argw[0].bits() == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    let rw = c.ret.bits();
    let (lo, hi) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1);
    let r = if d.is_nan() { 0 } else { (d as i128).clamp(lo, hi) };
    Ok(vconst(r as u128, rw))
}
fn objectsize(_: W, _: S, c: &CallI, _: &[Val]) -> R<Val> { Ok(vconst(u128::MAX, c.ret.bits())) }

pub fn lookup(name: &str) -> Option<ExtFn> {
    if let Some(f) = crate::fs::lookup(name) { return Some(f); }
    let f: ExtFn = match name {
        "__vp_byte" => vp_byte, "__vp_assume" => vp_assume, "__vp_assert" => vp_assert, "__vp_known" => vp_known, "__vp_cover" => vp_cover,
        "__vp_observe" => vp_observe, "__vp_observe_bytes" => vp_observe_bytes, "__vp_concrete" => vp_concrete, "__vp_is_native" => vp_is_native, "__vp_hash_mode" => vp_hash_mode, "__vp_param" => vp_param,
        "malloc" => malloc, "calloc" => calloc, "free" => free, "realloc" => realloc, "posix_memalign" => posix_memalign,
        "memcpy" | "memmove" => memcpy, "memset" => memset, "bcmp" => bcmp, "memcmp" => memcmp, "strlen" => strlen, "memchr" => memchr,
        "__errno_location" => errno_loc, "getenv" => getenv, "syscall" => syscall, "clock_gettime" => clock_gettime, "sched_getaffinity" => sched_getaffinity, "__xpg_strerror_r" => strerror_r,
        "pthread_key_create" => key_create, "pthread_setspecific" => key_set, "pthread_getspecific" => key_get,
        "pthread_key_delete" | "sched_yield" | "__cxa_thread_atexit_impl" => ret0,
        "getrandom" => getrandom, "abort" => abort, "sysconf" => sysconf, "getcwd" => getcwd, "gettid" | "getpid" => ret0,
        "log10" => flog10, "log2" => flog2, "log" => flog, "pow" => fpow, "fmin" => fmin, "fmax" => fmax,
        _ => {
            if name.contains("4core9panicking9panic_fmt") || name.contains("4core9panicking18panic_nounwind_fmt") || name.contains("17rust_begin_unwind") { return Some(panic_last); }
            if name.contains("3std9panicking15panic_with_hook") { return Some(panic_hook); }
            if name.contains("4core4hash3sip") && name.contains("6Hasher5write") && !name.contains("write_str") { return Some(sip_write); }
            if name.contains("4core4hash3sip") && name.contains("6Hasher6finish") { return Some(sip_finish); }
            let i = name.strip_prefix("llvm.")?;
            let h = |p: &str| i.starts_with(p);
            if h("lifetime.") || h("assume") || h("experimental.noalias") || h("dbg.") || h("prefetch") || h("x86.sse2.pause") || h("donothing") || h("invariant.") || h("stackrestore") || h("stacksave") || h("va_") { return Some(ret0); }
            if h("memcpy.") || h("memmove.") { memcpy } else if h("memset.") { memset }
            else if h("threadlocal.address") || h("expect.") || h("launder.") || h("strip.invariant") || h("ssa.copy") || h("ptrmask") && false { ret_first }
            else if h("umin.") { umin } else if h("umax.") { umax } else if h("smin.") { smin } else if h("smax.") { smax }
            else if h("ctlz.") { ctlz } else if h("cttz.") { cttz } else if h("ctpop.") { ctpop } else if h("bswap.") { bswap } else if h("bitreverse.") { bitreverse }
            else if h("abs.") { iabs } else if h("fshl.") { fshl } else if h("fshr.") { fshr }
            else if h("uadd.with") { uadd_o } else if h("usub.with") { usub_o } else if h("umul.with") { umul_o }
            else if h("sadd.with") { sadd_o } else if h("ssub.with") { ssub_o } else if h("smul.with") { smul_o }
            else if h("uadd.sat") { uadd_sat } else if h("usub.sat") { usub_sat } else if h("sadd.sat") { sadd_sat } else if h("ssub.sat") { ssub_sat }
            else if h("ucmp.") { ucmp } else if h("scmp.") { scmp } else if h("trap") || h("ubsantrap") || h("debugtrap") { abort }
            else if h("vector.reduce.or") { red_or } else if h("vector.reduce.and") { red_and } else if h("vector.reduce.add") { red_add }
            else if h("fabs.") { fabs } else if h("floor.") { ffloor } else if h("ceil.") { fceil } else if h("trunc.") { ftrunc } else if h("round.") { fround } else if h("sqrt.") { fsqrt }
            else if h("minnum.") || h("minimumnum.") { fmin } else if h("maxnum.") || h("maximumnum.") { fmax } else if h("log10.") { flog10 } else if h("log2.") { flog2 } else if h("log.") { flog }
            else if h("fptoui.sat") { fptoi_sat } else if h("fptosi.sat") { fptosi_sat } else if h("objectsize") { objectsize }
            else if h("is.constant") { ret0 }
            else { return None; }
        }
    };
    Some(f)
}
