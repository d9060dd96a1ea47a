//! Requirements: text -> fields -> text, and which versions satisfy them.
use rez_next_package::requirement::{EnvCondition, PlatformCondition, RequirementParser};
use rez_next_package::{PackageRequirement, Requirement, VersionConstraint as C};
use rez_next_version::Version;
use std::cmp::Ordering;
use vp::{refver, shaped};

fn warm() -> RequirementParser {
    let p = RequirementParser::new();
    for s in ["a", "foo-1.2", "ns::a_b-1+<2", "~a>=1.2,<3", "!b==1.*", "x[platform=='l']", "q-1..2", "k=="] { let _ = p.parse(s); }
    p
}
fn v(s: &str) -> Version { Version::parse(s).unwrap() }
type T = (u8, String); // operator (index into OPS; 6 = prefix, 7 = wildcard), version text
const OPS: [&str; 6] = ["==", ">=", ">", "<=", "<", "~="];
fn con(t: &T) -> C {
    let x = t.1.as_str();
    match t.0 { 0 => C::Exact(v(x)), 1 => C::GreaterThanOrEqual(v(x)), 2 => C::GreaterThan(v(x)), 3 => C::LessThanOrEqual(v(x)), 4 => C::LessThan(v(x)), 5 => C::Compatible(v(x)), 6 => C::Prefix(v(x)), _ => C::Wildcard(format!("{x}.*")) }
}
/// Version part of a requirement: text and meaning (all terms must hold).
fn gen_spec(sh: &[&str]) -> (String, Vec<T>) {
    let a = |i: u8| shaped(sh[vp::choice(sh.len() as u8) as usize % sh.len().max(i as usize)]);
    match vp::choice(9) {
        0 => (String::new(), vec![]),
        1 => { let o = vp::choice(6); let x = a(1); (format!("{}{x}", OPS[o as usize]), vec![(o, x)]) }
        2 => { let x = a(1); (format!("-{x}"), vec![(6, x)]) }
        3 => { let x = a(1); (format!("-{x}+"), vec![(1, x)]) }
        4 => { let (x, y) = (a(1), a(1)); (format!("-{x}+<{y}"), vec![(1, x), (4, y)]) }
        5 => { let (x, y) = (a(1), a(1)); (format!("-{x}+<={y}"), vec![(1, x), (3, y)]) }
        6 => { let (x, y) = (a(1), a(1)); (format!("-{x}..{y}"), vec![(1, x), (4, y)]) }
        7 => { let (o, q) = (vp::choice(6), vp::choice(6)); let (x, y) = (a(1), a(1)); let sp = ["", " "][vp::choice(2) as usize]; (format!("{}{x},{sp}{}{y}", OPS[o as usize], OPS[q as usize]), vec![(o, x), (q, y)]) }
        _ => { let x = a(1); (format!("=={x}.*"), vec![(7, x)]) }
    }
}
fn expected(t: &[T]) -> Option<C> {
    match t.len() { 0 => None, 1 => Some(con(&t[0])), _ => Some(C::Multiple(t.iter().map(con).collect())) }
}
/// The constraint spells exactly the texts it was given (Version equality would hide "1" vs "1.0").
fn same_text(c: &Option<C>, e: &Option<C>) -> bool {
    match (c, e) { (None, None) => true, (Some(a), Some(b)) => a == b && a.to_string() == b.to_string(), _ => false }
}
fn empty_version(c: &Option<C>) -> bool {
    fn e(c: &C) -> bool {
        match c {
            C::Exact(v) | C::GreaterThan(v) | C::GreaterThanOrEqual(v) | C::LessThan(v) | C::LessThanOrEqual(v) | C::Compatible(v) | C::Prefix(v) => v.is_empty(),
            C::Multiple(l) => l.iter().any(e),
            _ => false,
        }
    }
    c.as_ref().is_some_and(e)
}
fn roundtrip(p: &RequirementParser, r: &Requirement) {
    let t = r.to_string();
    vp::show!("printed = {t:?}");
    match p.parse(&t) {
        Ok(q) => vp::check(q == *r && q.to_string() == t, "printing and parsing again gives the same requirement"),
        Err(_) => vp::check(false, "the printed requirement parses"),
    }
}
#[no_mangle]
pub extern "C" fn h_req_fields() {
    let p = warm();
    // either every mark/namespace/name with three specs, or every spec with one prefix
    let (mark, ns, name, pre, spec, t);
    if vp::flag() {
        mark = vp::choice(3);
        ns = if vp::flag() { Some(shaped("wd")) } else { None };
        name = shaped(["w", "Wd", "wWw", "w.w"][vp::choice(4) as usize]);
        pre = ["", " "][vp::choice(2) as usize];
        let (a, b) = (shaped("n.d"), shaped("d"));
        (spec, t) = match vp::choice(4) { 0 => (String::new(), vec![]), 1 => (format!(">={a}"), vec![(1, a)]), 2 => (format!("-{a}+<{b}"), vec![(1, a), (4, b)]), _ => (format!("-{a}"), vec![(6, a)]) };
    } else {
        (mark, ns, name, pre) = (0, None, shaped("Wd"), "");
        (spec, t) = gen_spec(&["n.d", "d"]);
    }
    let s = format!("{pre}{}{}{name}{spec}{pre}", ["", "!", "~"][mark as usize], ns.as_ref().map(|n| format!("{n}::")).unwrap_or_default());
    vp::show!("text = {s:?}");
    let Ok(r) = p.parse(&s) else { vp::check(false, "a well formed requirement parses"); return };
    vp::check(r.name == name, "the package name is the text before the version");
    vp::check(r.conflict == (mark == 1) && r.weak == (mark == 2), "the '!' and '~' marks are kept");
    vp::check(r.namespace == ns, "the namespace is kept");
    vp::check(same_text(&r.version_constraint, &expected(&t)), "the version constraint is what the text says");
    vp::check(r.platform_conditions.is_empty() && r.env_conditions.is_empty(), "no conditions invented");
    vp::cover("parsed");
    roundtrip(&p, &r);
}
#[no_mangle]
pub extern "C" fn h_req_conditions() {
    let p = warm();
    let spec = ["", "-1.2", ">=1,<2"][vp::choice(3) as usize];
    let mut pc = Vec::new();
    let mut ec = Vec::new();
    let mut s = format!("foo{spec}");
    let n = 1 + vp::choice(vp::param(0, 2) as u8);
    for _ in 0..n {
        let neg = vp::flag();
        let op = if neg { "!=" } else { "==" };
        match vp::choice(4) {
            0 => { let x = shaped("wWd"); s += &format!("[platform{op}'{x}']"); pc.push(PlatformCondition { platform: x, arch: None, negate: neg }); }
            1 => { let (x, y) = (shaped("ww"), shaped("wd_d")); s += &format!("[platform{op}'{x}' and arch=='{y}']"); pc.push(PlatformCondition { platform: x, arch: Some(y), negate: neg }); }
            2 => { let (x, y) = (shaped("WW"), shaped("wd")); s += &format!("[env.{x}{op}'{y}']"); ec.push(EnvCondition { var_name: x, expected_value: Some(y), negate: neg }); }
            _ => { let x = shaped("WW"); s += &if neg { format!("[env.{x}!=None]") } else { format!("[env.{x}]") }; ec.push(EnvCondition { var_name: x, expected_value: None, negate: neg }); }
        }
    }
    vp::show!("text = {s:?}");
    let Ok(r) = p.parse(&s) else { vp::check(false, "a well formed requirement parses"); return };
    vp::check(r.name == "foo", "the package name is the text before the version");
    vp::check(r.platform_conditions == pc, "platform conditions are kept");
    vp::check(r.env_conditions == ec, "environment conditions are kept");
    vp::cover("parsed");
    roundtrip(&p, &r);
}
/// Any short text: parsing never panics, and what it accepts survives printing.
#[no_mangle]
pub extern "C" fn h_req_raw() {
    let p = warm();
    let s = vp::string_upto(0, vp::param(0, 4) as usize, b"a1_-.+<>=~!,:* ");
    vp::show!("text = {s:?}");
    if let Ok(r) = p.parse(&s) {
        vp::cover("accepted");
        // an empty version ("a-", "a-+") and a name made of operators have no printed form
        let named = !r.name.is_empty() && r.name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-');
        if named && !empty_version(&r.version_constraint) { roundtrip(&p, &r); }
    } else { vp::cover("rejected"); }
    let _ = PackageRequirement::parse(&s);
}

// ---------------------------------------------------------------- satisfaction
fn depth(s: &str, n: usize) -> String { refver::tokens(s.as_bytes()).iter().take(n).map(|t| std::str::from_utf8(t).unwrap()).collect::<Vec<_>>().join(".") }
fn ntok(s: &str) -> usize { refver::tokens(s.as_bytes()).len() }
fn at(ver: &str, c: &str) -> Ordering { refver::cmp(depth(ver, ntok(c)).as_bytes(), c.as_bytes()) }
pub fn sat1(t: &T, ver: &str) -> bool {
    let c = t.1.as_str();
    let n = ntok(c);
    match t.0 {
        0 => at(ver, c) == Ordering::Equal,
        1 => at(ver, c) != Ordering::Less,
        2 => at(ver, c) == Ordering::Greater,
        3 => at(ver, c) != Ordering::Greater,
        4 => at(ver, c) == Ordering::Less,
        5 => ntok(ver) >= n && same(&depth(ver, n - 1), &depth(c, n - 1)) && refver::tok_cmp(refver::tokens(ver.as_bytes())[n - 1], refver::tokens(c.as_bytes())[n - 1]) != Ordering::Less,
        6 => ntok(ver) >= n && same(&depth(ver, n), c),
        _ => ntok(ver) >= n && depth(ver, n) == c,
    }
}
fn same(a: &str, b: &str) -> bool {
    let (x, y) = (refver::tokens(a.as_bytes()), refver::tokens(b.as_bytes()));
    x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| refver::tok_cmp(p, q) == Ordering::Equal)
}
fn sat_check(sh: &[&str], vs: &[&str]) {
    let p = warm();
    let (spec, t) = gen_spec(sh);
    let ver = shaped(vs[vp::choice(vs.len() as u8) as usize]);
    let text = format!("foo{spec}");
    vp::show!("requirement = {text:?} version = {ver:?}");
    let Ok(r) = p.parse(&text) else { vp::check(false, "a well formed requirement parses"); return };
    let want = t.iter().all(|x| sat1(x, &ver));
    let x = v(&ver);
    vp::check(r.is_satisfied_by(&x) == want, "a version satisfies a requirement exactly when the text says so");
    if want { vp::cover("satisfied"); } else { vp::cover("unsatisfied"); }
}
#[no_mangle]
pub extern "C" fn h_req_sat() { sat_check(&["d", "n.d", "n.d.d"], &["d", "d.d", "d.d.d", "d.dd"]) }
#[no_mangle]
pub extern "C" fn h_req_sat_words() { sat_check(&["n.w", "nd"], &["n", "n.w", "n.d.w", "n.wd", "nd"]) }
/// Long bounds and long versions: every token of the bound counts, none after it.
#[no_mangle]
pub extern "C" fn h_req_sat_long() {
    let p = warm();
    let (sh, vs) = [("d.d.d.d", "d.d.d.d.d"), ("n.d.d.d.d", "n.d.d.d.d"), ("n.n.n.d", "n.n.n.d.d"), ("n.n.d.d", "n.n.d")][vp::choice(4) as usize];
    let (x, ver) = (shaped(sh), shaped(vs));
    let o = vp::choice(8);
    let text = match o { 6 => format!("foo-{x}"), 7 => format!("foo=={x}.*"), _ => format!("foo{}{x}", OPS[o as usize]) };
    vp::show!("requirement = {text:?} version = {ver:?}");
    let Ok(r) = p.parse(&text) else { vp::check(false, "a well formed requirement parses"); return };
    let want = sat1(&(o, x), &ver);
    vp::check(r.is_satisfied_by(&v(&ver)) == want, "a version satisfies a requirement exactly when the text says so");
    if want { vp::cover("satisfied"); } else { vp::cover("unsatisfied"); }
}
/// Three and four terms: each of them counts, wherever it stands.
#[no_mangle]
pub extern "C" fn h_req_sat_terms() {
    let p = warm();
    let n = 3 + vp::choice(2) as usize;
    let k = vp::choice(n as u8) as usize;
    let (o, x, ver) = (vp::choice(6), shaped("d.d"), shaped(["d.d", "d"][vp::choice(2) as usize]));
    let text = format!("foo{}", (0..n).map(|i| if i == k { format!("{}{x}", OPS[o as usize]) } else if i % 2 == 0 { "<=9".into() } else { ">=0".into() }).collect::<Vec<_>>().join(","));
    vp::show!("requirement = {text:?} version = {ver:?}");
    let Ok(r) = p.parse(&text) else { vp::check(false, "a well formed requirement parses"); return };
    let want = sat1(&(o, x), &ver);
    vp::check(r.is_satisfied_by(&v(&ver)) == want, "a version satisfies a requirement exactly when all its terms hold");
    vp::check(matches!(&r.version_constraint, Some(C::Multiple(l)) if l.len() == n), "every term is kept");
    if want { vp::cover("satisfied"); } else { vp::cover("unsatisfied"); }
    roundtrip(&p, &r);
}
/// Constraints put together with `and` and `or`.
#[no_mangle]
pub extern "C" fn h_con_compose() {
    let ver = shaped("d.d");
    let x = v(&ver);
    let ts: Vec<T> = (0..3).map(|i| (vp::choice([6, 3, 2][i]) * [1, 2, 3][i], shaped("d"))).collect();
    let b: Vec<bool> = ts.iter().map(|t| sat1(t, &ver)).collect();
    let (p, q) = (vp::flag(), vp::flag());
    let left = vp::flag();
    let j = |and: bool, a: C, b: C| if and { a.and(b) } else { a.or(b) };
    let w = |and: bool, a: bool, b: bool| if and { a && b } else { a || b };
    let (c, want) = if left {
        (j(q, j(p, con(&ts[0]), con(&ts[1])), con(&ts[2])), w(q, w(p, b[0], b[1]), b[2]))
    } else {
        (j(q, con(&ts[0]), j(p, con(&ts[1]), con(&ts[2]))), w(q, b[0], w(p, b[1], b[2])))
    };
    vp::show!("constraint = {c} version = {ver:?}");
    vp::check(c.is_satisfied_by(&x) == want, "'and' needs both constraints, 'or' one of them");
    vp::check(C::Any.is_satisfied_by(&x), "any version is any version");
    let e = C::Exclude(vec![v(&ts[0].1), v(&ts[1].1), v(&format!("{}.{}", ts[0].1, ts[1].1))]);
    let ne = |s: &str| refver::cmp(ver.as_bytes(), s.as_bytes()) != Ordering::Equal;
    vp::check(e.is_satisfied_by(&x) == (ne(&ts[0].1) && ne(&ts[1].1) && ne(&format!("{}.{}", ts[0].1, ts[1].1))), "excluded versions, and only they, are excluded");
    if want { vp::cover("satisfied"); } else { vp::cover("unsatisfied"); }
}
/// Platform conditions: any of the wanted ones, none of the unwanted ones.
#[no_mangle]
pub extern "C" fn h_req_where() {
    let p = warm();
    let pl = |i: u8| ["linux", "windows"][i as usize];
    let ar = |i: u8| ["x86", "arm"][i as usize];
    let mut s = String::from("foo-1");
    let n = 1 + vp::choice(vp::param(0, 2) as u8);
    let mut c = Vec::new();
    for _ in 0..n {
        let t = (vp::flag(), vp::choice(2), if vp::flag() { Some(vp::choice(2)) } else { None });
        s += &format!("[platform{}'{}'{}]", if t.0 { "!=" } else { "==" }, pl(t.1), t.2.map(|a| format!(" and arch=='{}'", ar(a))).unwrap_or_default());
        c.push(t);
    }
    let (hp, ha) = (vp::choice(2), if vp::flag() { Some(vp::choice(2)) } else { None });
    vp::show!("requirement = {s:?} platform = {} arch = {:?}", pl(hp), ha.map(ar));
    let Ok(r) = p.parse(&s) else { vp::check(false, "a well formed requirement parses"); return };
    let m = |t: &(bool, u8, Option<u8>)| t.1 == hp && t.2.is_none_or(|a| ha == Some(a));
    let want = !c.iter().any(|t| t.0 && m(t)) && (c.iter().all(|t| t.0) || c.iter().any(|t| !t.0 && m(t)));
    vp::check(r.is_platform_satisfied(pl(hp), ha.map(ar)) == want, "platform conditions hold where their text says, in any order");
    if want { vp::cover("applies"); } else { vp::cover("does not apply"); }
}
/// Environment conditions: all of them.
#[no_mangle]
pub extern "C" fn h_req_env() {
    let p = warm();
    let mut s = String::from("foo");
    let n = 1 + vp::choice(vp::param(0, 2) as u8);
    let mut c = Vec::new();
    for _ in 0..n {
        let (neg, var, val) = (vp::flag(), ["AA", "B"][vp::choice(2) as usize], if vp::flag() { Some(vp::string_upto(0, 1, b"xyN")) } else { None });
        s += &match &val { Some(x) => format!("[env.{var}{}'{x}']", if neg { "!=" } else { "==" }), None if neg => format!("[env.{var}!=None]"), None => format!("[env.{var}]") };
        c.push((neg, var, val));
    }
    let mut e = std::collections::HashMap::new();
    for k in ["AA", "B"] { if vp::flag() { e.insert(k.to_string(), vp::string_upto(0, 1, b"xyN")); } }
    vp::show!("requirement = {s:?} env = {e:?}");
    let Ok(r) = p.parse(&s) else { vp::check(false, "a well formed requirement parses"); return };
    let want = c.iter().all(|(neg, var, val)| match val { Some(x) => e.get(*var) == Some(x), None => e.contains_key(*var) } != *neg);
    vp::check(r.is_env_satisfied(&e) == want, "environment conditions hold where their text says");
    if want { vp::cover("applies"); } else { vp::cover("does not apply"); }
}

// ---------------------------------------------------------------- PackageRequirement
/// The printed form of a package requirement names the same package, marks and version spec.
#[no_mangle]
pub extern "C" fn h_preq_print() {
    let p = warm();
    let mark = vp::choice(3);
    let (spec, t) = gen_spec(&["n.d"]);
    let pre = ["", " "][vp::choice(2) as usize];
    let text = format!("{pre}{}foo{spec}{pre}", ["", "!", "~"][mark as usize]);
    vp::show!("requirement = {text:?}");
    let Ok(r) = PackageRequirement::parse(&text) else { vp::check(false, "a well formed requirement parses"); return };
    vp::check(r.name == "foo" && r.conflict == (mark == 1) && r.weak == (mark == 2), "name and marks");
    let printed = r.to_string();
    vp::show!("printed = {printed:?}");
    match p.parse(&printed) {
        Ok(q) => {
            vp::check(q.name == "foo" && q.conflict == (mark == 1) && q.weak == (mark == 2), "the printed form names the same package with the same marks");
            vp::check(same_text(&q.version_constraint, &expected(&t)), "the printed form carries the same version constraint");
        }
        Err(_) => vp::check(false, "the printed form parses"),
    }
    match PackageRequirement::parse(&printed) {
        Ok(q) => vp::check(q.name == r.name && q.version_spec == r.version_spec && q.weak == r.weak && q.conflict == r.conflict, "printing and parsing again gives the same package requirement"),
        Err(_) => vp::check(false, "the printed form parses as a package requirement"),
    }
    vp::cover("printed");
}
/// A package requirement accepts exactly the versions its text says.
#[no_mangle]
pub extern "C" fn h_preq() {
    let _ = warm();
    let (spec, t) = gen_spec(&["d", "n.d"]);
    let mut r = PackageRequirement::new("foo".into());
    let s = spec.strip_prefix('-').unwrap_or(&spec);
    if !s.is_empty() { r.version_spec = Some(s.to_string()); }
    let ver = shaped(["d", "d.d", "n.d.d"][vp::choice(vp::param(0, 2) as u8) as usize]);
    vp::show!("requirement = {spec:?} version = {ver:?}");
    let want = t.iter().all(|c| sat1(c, &ver));
    vp::check(r.satisfied_by(&v(&ver)) == want, "a package requirement accepts the versions its text says");
    if want { vp::cover("satisfied"); } else { vp::cover("unsatisfied"); }
}
/// `!=` specs (which only package requirements read).
#[no_mangle]
pub extern "C" fn h_preq_exclude() {
    let _ = warm();
    let (a, b, o) = (shaped(["n", "n.d"][vp::choice(2) as usize]), shaped("n.d"), vp::choice(6));
    let two = vp::flag();
    let ver = shaped(["n.d", "n", "n.d.d"][vp::choice(3) as usize]);
    let spec = if two { format!("!={a},{}{b}", OPS[o as usize]) } else { format!("!={a}") };
    vp::show!("requirement = {spec:?} version = {ver:?}");
    let r = PackageRequirement::with_version("foo".into(), spec);
    let want = refver::cmp(ver.as_bytes(), a.as_bytes()) != Ordering::Equal && (!two || sat1(&(o, b), &ver));
    vp::check(r.satisfied_by(&v(&ver)) == want, "a package requirement accepts the versions its text says");
    if want { vp::cover("satisfied"); } else { vp::cover("unsatisfied"); }
}
