use crate::shaped;
use rez_next_version::{Version, VersionRange};
use vp::refrange::{self as rr, Op, Range};

pub fn warm_r() {
    for s in [">=1.0,<2.0", "1.0+<2", "1..2", "~=1.4.2", "!=a_1|==2", "", "*", ">=x y", "1+"] { let _ = VersionRange::parse(s); }
}
const OPS: [(&str, Op); 8] = [(">=", Op::Ge), (">", Op::Gt), ("<=", Op::Le), ("<", Op::Lt), ("==", Op::Eq), ("!=", Op::Ne), ("", Op::Eq), ("~=", Op::Compat)];
/// One alternative of a range, rendered to text, with its meaning.
pub fn gen_alt(kinds: u8, sh: &[&str]) -> (String, Vec<rr::Term>) {
    let vs = |i: usize| shaped(sh[i % sh.len()]);
    let op = |n: u8| { let (t, o) = OPS[vp::choice(n) as usize]; (t, o) };
    match vp::choice(kinds) {
        0 => { let (t, o) = op(8); let v = vs(0); (format!("{t}{v}"), vec![(o, v.into_bytes())]) }
        1 => { // conjunction of an upper and a lower or exclusion
            let (t, o) = op(2); let v = vs(0);
            let (u, p) = [("<", Op::Lt), ("<=", Op::Le), ("!=", Op::Ne)][vp::choice(3) as usize]; let w = vs(1);
            let sep = [",", " ", ", "][vp::choice(3) as usize];
            (format!("{t}{v}{sep}{u}{w}"), vec![(o, v.into_bytes()), (p, w.into_bytes())])
        }
        2 => { let v = vs(0); (format!("{v}+"), vec![(Op::Ge, v.into_bytes())]) }
        3 => { let v = vs(0); let w = vs(1); (format!("{v}+<{w}"), vec![(Op::Ge, v.into_bytes()), (Op::Lt, w.into_bytes())]) }
        4 => { let v = vs(0); let w = vs(1); (format!("{v}..{w}"), vec![(Op::Ge, v.into_bytes()), (Op::Lt, w.into_bytes())]) }
        _ => (["*", ""][vp::choice(2) as usize].to_string(), vec![(Op::Any, vec![])]),
    }
}
pub fn gen_range(alts: u8, kinds: u8, sh: &[&str]) -> (String, Range) {
    let n = 1 + vp::choice(alts);
    let mut text = String::new();
    let mut r = Vec::new();
    for i in 0..n {
        let (t, a) = gen_alt(kinds, sh);
        if i > 0 { text.push('|'); }
        text.push_str(&t);
        r.push(a);
    }
    (text, r)
}
fn member(text: &str, r: &Range, v: &str) {
    vp::show!("range = {text:?} version = {v:?}");
    let Ok(p) = VersionRange::parse(text) else { vp::check(false, "a well formed range parses"); return };
    let Ok(x) = Version::parse(v) else { vp::assume(false); return };
    let want = rr::has(r, v.as_bytes());
    vp::check(p.contains(&x) == want, "membership is what the range text says");
    if want { vp::cover("in"); } else { vp::cover("out"); }
}
/// Structured range, one alternative, many shapes of bounds and of the tested version.
#[no_mangle]
pub extern "C" fn h_range_alt() {
    crate::warm(); warm_r();
    let shapes: &[&str] = &["d.d", "d", "d.d.d", "d.w", "w", "d.dw"];
    let a = shapes[vp::choice(vp::param(0, 4) as u8) as usize];
    let b = shapes[vp::choice(vp::param(0, 4) as u8) as usize];
    let (text, r) = { let (t, a) = gen_alt(6, &[a, b]); (t, vec![a]) };
    let v = shaped(["d.d", "d", "d.d.d", "d.w"][vp::choice(vp::param(1, 4) as u8) as usize]);
    member(&text, &r, &v);
}
/// Two alternatives.
#[no_mangle]
pub extern "C" fn h_range_or() {
    crate::warm(); warm_r();
    let (text, r) = gen_range(2, 6, &["d.d", "d"]);
    let v = shaped(["d.d", "d"][vp::choice(2) as usize]);
    member(&text, &r, &v);
}
/// Three terms of any kind, all of which must hold, and three alternatives, one of which must.
#[no_mangle]
pub extern "C" fn h_range_conj() {
    crate::warm(); warm_r();
    let t: Vec<(&str, Op, String)> = (0..3).map(|_| { let (t, o) = OPS[vp::choice(7) as usize]; (t, o, shaped("n")) }).collect();
    let (sep, or) = [(",", false), (" ", false), ("|", true), (" | ", true)][vp::choice(4) as usize];
    // after a space a bare version would continue the term before
    vp::assume(sep != " " || (!t[1].0.is_empty() && !t[2].0.is_empty()));
    let text: Vec<String> = t.iter().map(|(t, _, v)| format!("{t}{v}")).collect();
    let terms: Vec<rr::Term> = t.into_iter().map(|(_, o, v)| (o, v.into_bytes())).collect();
    let v = shaped("n");
    member(&text.join(sep), &if or { terms.into_iter().map(|t| vec![t]).collect() } else { vec![terms] }, &v);
}
/// `~=` at two, three and four parts, numbers up to and beyond u64.
#[no_mangle]
pub extern "C" fn h_range_compat() {
    crate::warm(); warm_r();
    let mut v = shaped(["d.d", "d.d.d", "d.d.d.d", "dd.d", "d.9.d", "18446744073709551614.d", "1.18446744073709551614.d", "9.d", "99.99.d", "d"][vp::choice(10) as usize]);
    let w = shaped(["d.d", "dd.d", "d.dd.d", "d.d.d.d", "dd", "18446744073709551615.d", "18446744073709551616.d", "1.18446744073709551615.d", "d.dd", "100.d", "99.100.d"][vp::choice(11) as usize]);
    if vp::flag() { v.insert(0, ' '); }
    let r = vec![vec![(Op::Compat, v.trim().as_bytes().to_vec())]];
    member(&format!("~={v}"), &r, &w);
}
/// `~=` at the largest number: no panic, and the version itself is in.
#[no_mangle]
pub extern "C" fn h_range_compat_max() {
    crate::warm(); warm_r();
    let v = shaped(["18446744073709551615.d", "1.18446744073709551615.d", "99999999999999999999d.d"][vp::choice(3) as usize]);
    let w = shaped("d.d");
    vp::show!("range = ~={v} versions {v} {w}");
    let (r, x, y) = (pr(&format!("~={v}")), Version::parse(&v).unwrap(), Version::parse(&w).unwrap());
    vp::check(r.contains(&x), "a compatible range contains its base");
    vp::check(r.contains(&y) == (y == x) || y >= x, "nothing below the base");
    vp::cover("max");
}
/// Raw text: any text over the range alphabet, against the reference parser.
#[no_mangle]
pub extern "C" fn h_range_raw() {
    crate::warm(); warm_r();
    let n = vp::choice(vp::param(0, 4) as u8 + 1) as usize;
    let text = vp::string_of(n, b">=<!~|,+* .1ap");
    let v = ["1", "a", "1.1", "11", ""][vp::choice(vp::param(1, 4) as u8) as usize];
    vp::show!("range = {text:?} version = {v:?}");
    let want = rr::parse(text.as_bytes());
    let got = VersionRange::parse(&text);
    vp::check(got.is_ok() == want.is_some(), "range text is accepted exactly when well formed");
    if let (Ok(g), Some(w)) = (got, want) {
        let x = Version::parse(v).unwrap();
        vp::check(g.contains(&x) == rr::has(&w, v.as_bytes()), "membership is what the range text says");
        vp::check(g.as_str() == text, "a range keeps its text");
        vp::cover("accepted");
    } else { vp::cover("rejected"); }
}

// ---------------------------------------------------------------- C07 set algebra
const NZ: &[&str] = &["n.n", "n", "n.n.n"];
fn pr(t: &str) -> VersionRange { match VersionRange::parse(t) { Ok(r) => r, Err(_) => { vp::check(false, "a well formed range parses"); unreachable!() } } }
fn pick_v(n: u8) -> (String, Version) {
    let v = shaped(["n.n", "n", "n.n.n", "n.w", "n.n.w"][vp::choice(n) as usize]);
    let x = Version::parse(&v).unwrap();
    (v, x)
}
/// Pointwise laws of intersect, union, subtract and soundness of intersects / subset, for two
/// parsed ranges and any version.
fn laws(a: &VersionRange, b: &VersionRange, x: &Version) {
    let (ia, ib) = (a.contains(x), b.contains(x));
    match a.intersect(b) {
        Some(r) => vp::check(r.contains(x) == (ia && ib), "intersection contains exactly the common versions"),
        None => vp::check(!(ia && ib), "no intersection means no common version"),
    }
    vp::check(a.union(b).contains(x) == (ia || ib), "union contains exactly the versions of either");
    match a.subtract(b) {
        Some(r) => vp::check(r.contains(x) == (ia && !ib), "difference contains exactly the versions of the first only"),
        None => vp::check(!ia || ib, "no difference means every version of the first is in the second"),
    }
    if ia && ib { vp::check(a.intersects(b) && b.intersects(a), "ranges with a common version intersect"); vp::cover("common"); }
    if ia && !ib { vp::check(!a.is_subset_of(b) && !b.is_superset_of(a), "a subset has no version outside"); vp::cover("outside"); }
    if a.is_any() { vp::check(ia, "any contains everything"); }
    if a.is_empty() { vp::check(!ia, "empty contains nothing"); }
}
/// op rank: 0..2 single-alternative pairs of every term kind
#[no_mangle]
pub extern "C" fn h_alg_terms() {
    crate::warm(); warm_r();
    let sh = [NZ[vp::choice(vp::param(0, 2) as u8) as usize], NZ[vp::choice(vp::param(0, 2) as u8) as usize]];
    let one = |s: &str| { let (t, o) = OPS[vp::choice(8) as usize]; let _ = o; format!("{t}{}", shaped(s)) };
    let (ta, tb) = (one(sh[0]), one(sh[1]));
    let (v, x) = pick_v(vp::param(1, 4) as u8);
    vp::show!("a = {ta:?} b = {tb:?} version = {v:?}");
    laws(&pr(&ta), &pr(&tb), &x);
}
/// Conjunctions and intervals against terms and intervals.
#[no_mangle]
pub extern "C" fn h_alg_intervals() {
    crate::warm(); warm_r();
    let k = vp::choice(3);
    let iv = || format!(">={},<{}", shaped("n"), shaped("n.n"));
    let iv2 = || format!(">{},<={}", shaped("n.n"), shaped("n"));
    let (ta, tb) = match k {
        0 => (iv(), iv2()),
        1 => (iv(), format!("{}|>{}", shaped("n.n"), shaped("n"))),
        _ => (format!("<{}|>={}", shaped("n.n"), shaped("n")), format!("!={}", shaped("n.n"))),
    };
    let (v, x) = pick_v(2);
    vp::show!("a = {ta:?} b = {tb:?} version = {v:?}");
    laws(&pr(&ta), &pr(&tb), &x);
}
/// Dates and other large numbers (beyond 999.999.999).
#[no_mangle]
pub extern "C" fn h_alg_large() {
    crate::warm(); warm_r();
    let big = || shaped(["202n", "2024n1n1", "1000.n", "9999999n", "n"][vp::choice(5) as usize]);
    let one = || { let (t, _) = OPS[vp::choice(7) as usize]; format!("{t}{}", big()) };
    let (ta, tb) = (one(), one());
    let v = big();
    let x = Version::parse(&v).unwrap();
    vp::show!("a = {ta:?} b = {tb:?} version = {v:?}");
    laws(&pr(&ta), &pr(&tb), &x);
}
/// The laws also hold for ranges that are themselves results (A op B) op C.
#[no_mangle]
pub extern "C" fn h_alg_compose() {
    crate::warm(); warm_r();
    let one = || { let (t, _) = [(">=", 0), ("<", 0), ("==", 0), ("!=", 0), ("*", 1), ("!*", 1)][vp::choice(6) as usize]; if t.ends_with('*') { t.to_string() } else { format!("{t}{}", shaped("n")) } };
    let (ta, tb, tc) = (one(), one(), one());
    let (a, b, c) = (pr(&ta), pr(&tb), pr(&tc));
    let v = shaped("n");
    let x = Version::parse(&v).unwrap();
    let k = vp::choice(3);
    vp::show!("a = {ta:?} b = {tb:?} c = {tc:?} version = {v:?} inner = {}", ["subtract", "intersect", "union"][k as usize]);
    let ab = match k { 0 => a.subtract(&b), 1 => a.intersect(&b), _ => Some(a.union(&b)) };
    if let Some(ab) = ab {
        laws(&ab, &c, &x);
        laws(&c, &ab, &x);
        vp::cover("composed");
    }
}
/// Exactness where the bounds alone decide: intervals and exact versions meet exactly when they overlap.
type Iv = (Option<(String, bool)>, Option<(String, bool)>);
fn interval(shape: &str) -> (String, Iv) {
    let v = shaped(shape);
    match vp::choice(5) {
        0 => (format!("<{v}"), (None, Some((v, false)))),
        1 => (format!("<={v}"), (None, Some((v, true)))),
        2 => (format!(">{v}"), (Some((v, false)), None)),
        3 => (format!(">={v}"), (Some((v, true)), None)),
        _ => (format!("=={v}"), (Some((v.clone(), true)), Some((v, true)))),
    }
}
fn overlap(a: &Iv, b: &Iv) -> bool {
    use std::cmp::Ordering::*;
    let below = |l: &Option<(String, bool)>, h: &Option<(String, bool)>| match (l, h) {
        (Some((l, li)), Some((h, hi))) => match vp::refver::cmp(l.as_bytes(), h.as_bytes()) { Less => true, Equal => *li && *hi, Greater => false },
        _ => true,
    };
    below(&a.0, &b.1) && below(&b.0, &a.1)
}
#[no_mangle]
pub extern "C" fn h_alg_exact() {
    crate::warm(); warm_r();
    let ((ta, ia), (tb, ib)) = (interval("n.n"), interval("n.n"));
    let want = overlap(&ia, &ib);
    vp::show!("a = {ta:?} b = {tb:?} expected {want}");
    let (a, b) = (pr(&ta), pr(&tb));
    vp::check(a.intersects(&b) == want && b.intersects(&a) == want, "intervals intersect exactly when they overlap");
    vp::check(a.intersect(&b).is_some() == want, "an intersection exists exactly when they overlap");
    vp::check(a.is_subset_of(&a) && a.is_superset_of(&a), "a range is a subset of itself");
    if let Some(i) = a.intersect(&b) { vp::check(i.is_subset_of(&a) && i.is_subset_of(&b), "an intersection is a subset of both"); }
    vp::check(a.is_subset_of(&a.union(&b)), "a range is a subset of a union with it");
    if want { vp::cover("meet"); } else { vp::cover("apart"); }
}
/// The same for three: an intersection of intervals meets a third exactly when all overlap pairwise.
#[no_mangle]
pub extern "C" fn h_alg_exact3() {
    crate::warm(); warm_r();
    let ((ta, ia), (tb, ib), (tc, ic)) = (interval("n"), interval("n"), interval("n"));
    let want = overlap(&ia, &ib) && overlap(&ib, &ic) && overlap(&ia, &ic);
    vp::show!("a = {ta:?} b = {tb:?} c = {tc:?} expected {want}");
    let (a, b, c) = (pr(&ta), pr(&tb), pr(&tc));
    let Some(ab) = a.intersect(&b) else { return vp::check(!overlap(&ia, &ib), "an intersection exists exactly when they overlap") };
    vp::check(ab.intersects(&c) == want && c.intersects(&ab) == want && ab.intersect(&c).is_some() == want, "three intervals meet exactly when they overlap");
    if want { vp::cover("meet"); } else { vp::cover("apart"); }
}
// ---------------------------------------------------------------- C08 stored ranges
/// Writing a range as JSON and reading it back keeps its members (or is refused).
#[no_mangle]
pub extern "C" fn h_range_serde() {
    crate::warm(); warm_r();
    let (text, r) = gen_range(vp::param(0, 1) as u8, 6, &["d.d"]);
    let v = shaped("d.d");
    let text = format!("{}{text}{}", ["", " "][vp::choice(2) as usize], ["", " "][vp::choice(2) as usize]);
    vp::show!("range = {text:?} version = {v:?}");
    let (a, x) = (pr(&text), Version::parse(&v).unwrap());
    let j = serde_json::to_string(&a).unwrap();
    match serde_json::from_str::<VersionRange>(&j) {
        Ok(b) => {
            vp::check(b.contains(&x) == rr::has(&r, v.as_bytes()), "a stored range keeps its members");
            vp::check(b.as_str() == text, "a stored range keeps its text");
            vp::cover("stored");
        }
        Err(_) => vp::check(false, "a stored range reads back"),
    }
}
#[no_mangle]
pub extern "C" fn h_ver_serde() {
    crate::warm();
    let v = shaped(["", "d", "d.d", "d-a", "aa+dd", "a_d.d", "00d.d-d", "d.d.d.d.a.a.a.a.a.a", "9999999999999999999d.d"][vp::choice(9) as usize]);
    let v = match vp::choice(3) { 0 => v, 1 => "inf".to_string(), _ => v };
    let Ok(x) = Version::parse(&v) else { return vp::cover("no version") };
    vp::show!("version {v:?}");
    let jv = serde_json::to_string(&x).unwrap();
    match serde_json::from_str::<Version>(&jv) {
        Ok(y) => vp::check(y == x && y.as_str() == v && y.len() == x.len() && y.is_inf() == x.is_inf() && y.is_empty() == x.is_empty(), "a stored version reads back"),
        Err(_) => vp::check(false, "a stored version reads back"),
    }
    let z = x.clone();
    vp::check(z == x && z.as_str() == v && z.len() == x.len(), "a copy is the same version");
    vp::cover("version");
}
/// A computed range either reads back with the same members or is refused, never silently changed.
#[no_mangle]
pub extern "C" fn h_range_serde_computed() {
    crate::warm(); warm_r();
    let one = || { let (t, _) = OPS[vp::choice(6) as usize]; format!("{t}{}", shaped("n")) };
    let (a, b) = (one(), one());
    let (ra, rb) = (pr(&a), pr(&b));
    let k = vp::choice(3);
    let v = shaped("n");
    vp::show!("a = {a:?} b = {b:?} op = {k} version = {v:?}");
    let x = Version::parse(&v).unwrap();
    let r = match k { 0 => ra.intersect(&rb), 1 => ra.subtract(&rb), _ => Some(ra.union(&rb)) };
    if let Some(r) = r {
        let j = serde_json::to_string(&r).unwrap();
        if let Ok(s) = serde_json::from_str::<VersionRange>(&j) {
            vp::check(s.contains(&x) == r.contains(&x), "a stored computed range keeps its members");
            vp::cover("kept");
        }
        if let Ok(s) = VersionRange::parse(r.as_str()) {
            vp::check(s.contains(&x) == r.contains(&x), "the text of a computed range means that range");
        }
    }
}
