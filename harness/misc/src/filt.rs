//! Package filters: both implementations.
use rez_next_package::filter as pf;
use rez_next_package::Package;
use rez_next_package_filter as ff;
use rez_next_version::Version;
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => glob(&p[1..], s) || (!s.is_empty() && glob(p, &s[1..])),
        Some(c) => !s.is_empty() && (*c == b'?' || *c == s[0]) && glob(&p[1..], &s[1..]),
    }
}
fn pat(n: usize, set: &[u8]) -> String { (0..n).map(|_| set[vp::choice(set.len() as u8) as usize] as char).collect() }
#[no_mangle]
pub extern "C" fn h_flt_glob() {
    let which = vp::choice(6);
    let n = 1 + vp::choice(vp::param(0, 3) as u8) as usize;
    let p = pat(n, b"a*?.+\\[");
    // the glob crate gives '[' and '**' other meanings
    vp::assume(!p.contains("**") && (which % 5 > 0 || !p.contains('[')));
    let name = vp::string_upto(1, vp::param(1, 3) as usize, b"ab.+\\[\n");
    let mut pk = Package::new("x".to_string());
    if which == 2 || which == 4 { pk.description = Some(name.clone()); } else { pk.name = name.clone(); }
    let got = match which {
        0 => { let mut f = pf::PackageFilter::new(); f.add_exclusion(None, pf::parse_rule(&format!("glob({p})")).unwrap()); f.excludes(&pk) }
        1 => { let mut f = ff::PackageFilter::new(); f.add_exclusion_from_str(&format!("glob({p})")).ok().unwrap(); f.excludes(&pk).is_some() }
        3 => { let mut f = ff::PackageFilter::new(); vp::assume(p.contains('*') || p.contains('?')); f.add_exclusion_from_str(&p).ok().unwrap(); f.excludes(&pk).is_some() }
        4 => { let mut f = ff::PackageFilter::new(); f.add_exclusion_from_str("glob(*)").ok().unwrap(); f.add_inclusion_from_str(&format!("glob(description:{p})")).ok().unwrap(); !f.excludes(&pk).is_some() }
        5 => { vp::assume(p.contains('*') || p.contains('?')); let mut f = pf::PackageFilter::new(); f.add_exclusion(None, pf::parse_rule(&p).unwrap()); let mut l = pf::PackageFilterList::new(); l.add_filter(pf::PackageFilter::new()); l.add_filter(f); l.excludes(&pk) }
        _ => { let mut f = ff::PackageFilter::new(); f.add_exclusion_from_str(&format!("glob(description:{p})")).ok().unwrap(); f.excludes(&pk).is_some() }
    };
    let want = glob(p.as_bytes(), name.as_bytes());
    vp::show!("implementation {which} glob {p:?} name {name:?}: {got} expected {want}");
    vp::check(got == want, "'*' matches any text, '?' one character, anything else itself");
    vp::cover(if want { "match" } else { "no match" });
}
/// A rule: text for either implementation and its meaning on (name, version digit, timestamp).
fn rule(new: bool, k: u8, c: u8) -> (String, Box<dyn Fn(&str, Option<u8>, Option<i64>) -> bool>) {
    let d = c as char;
    match k {
        0 => ("glob(b*)".into(), Box::new(|n, _, _| n.starts_with('b'))),
        1 => ("regex(^a$)".into(), Box::new(|n, _, _| n == "a")),
        2 => (if new { format!("range(a->={d})") } else { format!("range(a>={d})") }, Box::new(move |n, v, _| n == "a" && v.is_some_and(|v| v >= c))),
        3 => (if new { format!("range(bb-<{d})") } else { format!("range(bb<{d})") }, Box::new(move |n, v, _| n == "bb" && v.is_some_and(|v| v < c))),
        4 => (if new { format!("before(10{d})") } else { format!("timestamp(before:10{d})") }, Box::new(move |_, _, t| t.is_some_and(|t| t < 100 + (c - b'0') as i64))),
        _ => (if new { format!("after(10{d})") } else { format!("timestamp(after:10{d})") }, Box::new(move |_, _, t| t.is_some_and(|t| t > 100 + (c - b'0') as i64))),
    }
}
fn digit() -> u8 { let c = vp::byte(); vp::assume(c >= b'1' && c <= b'9'); c }
#[no_mangle]
pub extern "C" fn h_flt_rules() {
    vp::hash_mode(1000 + vp::choice(2) as u64);
    let new = vp::flag();
    let (ne, ni) = (1 + vp::choice(vp::param(0, 2) as u8), vp::choice(vp::param(1, 2) as u8));
    let name = if vp::flag() { "bb" } else { "a" };
    let v = if vp::choice(3) == 0 { None } else { Some(digit()) };
    let t = if vp::flag() { Some(100 + (digit() - b'0') as i64) } else { None };
    let mut pk = Package::new(name.to_string());
    pk.version = v.map(|v| Version::parse(&(v as char).to_string()).unwrap());
    pk.timestamp = t;
    let (mut old, mut nw) = (pf::PackageFilter::new(), ff::PackageFilter::new());
    let (mut ex, mut inc) = (false, false);
    let mut text = String::new();
    for i in 0..ne + ni {
        let (s, m) = rule(new, vp::choice(6), digit());
        let hit = m(name, v, t);
        text += if i < ne { " exclude " } else { " include " };
        text += &s;
        if i < ne { ex |= hit } else { inc |= hit }
        if new { let r = if i < ne { nw.add_exclusion_from_str(&s) } else { nw.add_inclusion_from_str(&s) }; vp::check(r.is_ok(), "a rule is accepted"); }
        else { let r = pf::parse_rule(&s); vp::check(r.is_some(), "a rule is accepted"); if i < ne { old.add_exclusion(None, r.unwrap()) } else { old.add_inclusion(None, r.unwrap()) } }
    }
    let want = ex && !inc;
    vp::show!("{text} on {name} {:?} {t:?}: expected {want}", pk.version);
    if new {
        vp::check(nw.excludes(&pk).is_some() == want && nw.includes(&pk) == !want, "excluded exactly when an exclusion matches and no inclusion does");
        let back = ff::PackageFilter::from_pod(&nw.to_pod());
        vp::check(back.is_ok_and(|b| b.excludes(&pk).is_some() == want), "a stored filter decides the same");
    } else {
        vp::check(old.excludes(&pk) == want, "excluded exactly when an exclusion matches and no inclusion does");
        vp::check(old.filter_packages(vec![pk.clone()]).len() == !want as usize, "filtering drops exactly the excluded packages");
        let back = pf::PackageFilter::from_pod(&old.to_pod());
        vp::check(back.is_ok_and(|b| b.excludes(&pk) == want), "a stored filter decides the same");
    }
    vp::cover(if want { "excluded" } else { "kept" });
}
/// Timestamp rules of every kind keep their meaning when stored; family-bound rules bind.
#[no_mangle]
pub extern "C" fn h_flt_time() {
    let (a, b) = (digit() as i64, digit() as i64);
    let mut pk = Package::new("a".to_string());
    pk.timestamp = Some(b);
    let (r, want) = match vp::choice(4) { 0 => (pf::TimestampRule::before(a), b < a), 1 => (pf::TimestampRule::after(a), b > a), 2 => (pf::TimestampRule::at_or_before(a), b <= a), _ => (pf::TimestampRule::at_or_after(a), b >= a) };
    let mut f = pf::PackageFilter::new();
    let fam = vp::choice(3);
    f.add_exclusion([None, Some("a"), Some("bb")][fam as usize], Box::new(r));
    let want = want && fam != 2;
    vp::check(f.excludes(&pk) == want && f.clone().excludes(&pk) == want, "the rule holds for the times it names, in its family");
    {
        let pod = f.to_pod();
        vp::show!("{pod:?} package at {b}");
        let g = pf::PackageFilter::from_pod(&pod);
        vp::check(g.is_ok_and(|g| g.excludes(&pk) == want), "a stored filter decides the same");
    }
    vp::cover(if want { "excluded" } else { "kept" });
}
/// Rules on the version text.
#[no_mangle]
pub extern "C" fn h_flt_version() {
    let n = 1 + vp::choice(vp::param(0, 3) as u8) as usize;
    let p = pat(n, b"1*?.");
    vp::assume(!p.contains("**"));
    let v = vp::shaped(["n", "n.n", "n.n.n", "n-n"][vp::choice(4) as usize]);
    let mut pk = Package::new("x".to_string());
    if vp::flag() { pk.version = Some(Version::parse(&v).unwrap()); }
    let mut f = ff::PackageFilter::new();
    f.add_exclusion_from_str(&format!("glob(version:{p})")).ok().unwrap();
    let want = pk.version.is_some() && glob(p.as_bytes(), v.as_bytes());
    vp::show!("glob {p:?} on version {:?}: expected {want}", pk.version);
    vp::check(f.excludes(&pk).is_some() == want, "a glob on the version matches the version text");
    vp::cover(if want { "match" } else { "no match" });
}
