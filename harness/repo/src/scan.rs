use crate::wait;
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager, SimpleRepository};
use rez_next_repository::{FileSystemRepository, PackageSearchCriteria, Repository};
use rez_next_search::{FilterMode, PackageSearcher, SearchFilter, SearchOptions, SearchScope};
use rez_next_version::Version;
use std::cmp::Ordering;
pub fn put(dir: &str, def: &str) { std::fs::create_dir_all(dir).unwrap(); std::fs::write(format!("{dir}/package.py"), def).unwrap(); }
fn def(name: &str, v: Option<&str>, extra: &str) -> String { match v { Some(v) => format!("name = '{name}'\nversion = '{v}'\n{extra}"), None => format!("name = '{name}'\n{extra}") } }
type P = (String, Option<String>, String);
fn of(p: &rez_next_package::Package) -> P { (p.name.clone(), p.version.as_ref().map(|v| v.as_str().to_string()), p.filepath.clone().unwrap_or_default()) }
fn sorted(mut v: Vec<P>) -> Vec<P> { v.sort(); v }
/// Versions of equal shape compare as their digits do.
fn newer(a: &Option<String>, b: &Option<String>) -> Ordering { match (a, b) { (Some(a), Some(b)) => a.cmp(b), (Some(_), None) => Ordering::Greater, (None, Some(_)) => Ordering::Less, _ => Ordering::Equal } }
/// A repository: versioned, flat, nested and broken packages, and things that are none.
fn fill(r: &str, want: &mut Vec<P>, bad: &mut Vec<&'static str>, small: bool) {
    std::fs::create_dir_all(r).unwrap();
    let mut add = |dir: String, n: &str, v: Option<String>| { put(&dir, &def(n, v.as_deref(), "")); want.push((n.to_string(), v, format!("{dir}/package.py"))); };
    let (v, w) = (format!("1.{}", vp::byte_of(b"123456789") as char), "1.5".to_string());
    if vp::flag() { add(format!("{r}/a/{v}"), "a", Some(v.clone())); }
    if vp::flag() { vp::assume(v != w); add(format!("{r}/a/{w}"), "a", Some(w.clone())); }
    if small { if vp::flag() { add(format!("{r}/b/1.3"), "b", Some("1.3".to_string())); } return; }
    match vp::choice(4) {
        0 => {}
        1 => add(format!("{r}/b"), "b", None),
        2 => add(format!("{r}/b"), "b", Some(v)),
        _ => { add(format!("{r}/g/b/2.7"), "b", Some("2.7".to_string())); std::fs::create_dir_all(format!("{r}/g/e")).unwrap(); }
    }
    match vp::choice(5) {
        0 => {}
        1 => std::fs::write(format!("{r}/package.txt"), "x").unwrap(),
        2 => { put(&format!("{r}/a/bad"), "name = 'a\n"); bad.push("a"); }
        3 => { put(&format!("{r}/c/1"), "version = '1'\n"); bad.push("c"); }
        _ => { add(format!("{r}/d/2.7"), "d", Some("2.7".to_string())); put(&format!("{r}/d/2.7/sub"), &def("d", Some("3"), "")); }
    }
}
/// What a scan finds, and looking it up.
#[no_mangle]
pub extern "C" fn h_scan() {
    vp::hash_mode(vp::choice(vp::param(0, 1) as u8) as u64 + 1);
    let d = vp::scratch();
    let r = format!("{d}/r");
    let order = vp::choice(2);
    vp::fs_order(order as u64);
    let (mut want, mut bad) = (Vec::new(), Vec::new());
    fill(&r, &mut want, &mut bad, false);
    let s = SimpleRepository::new(&r, "r".to_string());
    vp::show!("{want:?} {bad:?}");
    let before = vp::choice(3);
    vp::assume(vp::param(1, 0) > 0 || before == 0 || order == 0);
    if before == 1 { wait(s.scan()).unwrap(); }
    if before == 2 { let _ = wait(s.find_packages("zz")); }
    for n in ["a", "b", bad.first().copied().unwrap_or("d")] {
        let exp = sorted(want.iter().filter(|w| w.0 == n).cloned().collect());
        for _ in 0..if before == 0 { 2 } else { 1 } {
            match wait(s.find_packages(n)) {
                Ok(p) => {
                    vp::check(!bad.contains(&n), "an unreadable definition is reported");
                    vp::check(sorted(p.iter().map(|p| of(p)).collect()) == exp, "exactly the packages of that name are found");
                    vp::cover("found");
                }
                Err(e) => { vp::show!("{e}"); vp::check(bad.contains(&n), "a readable family is found"); vp::cover("unreadable") }
            }
        }
        if bad.contains(&n) || exp.is_empty() { continue; }
        let top = exp.iter().max_by(|a, b| newer(&a.1, &b.1)).map(|p| p.1.clone());
        vp::check(wait(s.get_package(n, None)).unwrap().map(|p| of(&p).1) == top, "the latest version is given");
        for v in want.iter().filter_map(|w| w.1.as_deref()).take(2).chain(["99"]) {
            let g = wait(s.get_package(n, Some(v))).unwrap().map(|p| of(&p));
            vp::check(g == exp.iter().find(|w| w.1.as_deref() == Some(v)).cloned(), "the version asked for is given");
        }
    }
    let mut names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
    names.sort(); names.dedup();
    vp::check(wait(s.list_packages()).unwrap() == names, "every name once, in order");
    // later changes are seen by the next scan
    if let Some(w) = want.first() {
        std::fs::remove_file(&w.2).unwrap();
        put(&format!("{r}/n/1"), &def("n", Some("1"), ""));
        wait(s.scan()).unwrap();
        vp::check(wait(s.find_packages("n")).unwrap().len() == 1, "a new package is found");
        if !bad.contains(&w.0.as_str()) { vp::check(wait(s.find_packages(&w.0)).unwrap().iter().all(|p| of(p).2 != w.2), "a removed package is gone"); }
    }
}
/// Several repositories.
#[no_mangle]
pub extern "C" fn h_scan_many() {
    vp::hash_mode(1);
    let d = vp::scratch();
    let mut m = RepositoryManager::new();
    let mut all: Vec<Vec<P>> = Vec::new();
    for i in 0..2 {
        let r = format!("{d}/r{i}");
        let mut w = Vec::new();
        fill(&r, &mut w, &mut Vec::new(), true);
        all.push(w);
        m.add_repository(Box::new(SimpleRepository::new(&r, format!("r{i}"))));
    }
    vp::show!("{all:?}");
    vp::check(m.repository_count() == 2, "count");
    let flat: Vec<P> = all.iter().flatten().cloned().collect();
    for n in ["a", "b"] {
        let got: Vec<P> = wait(m.find_packages(n)).unwrap().iter().map(|p| of(p)).collect();
        vp::check(sorted(got.clone()) == sorted(flat.iter().filter(|w| w.0 == n).cloned().collect()), "the packages of all repositories");
        vp::check(got.windows(2).all(|w| newer(&w[0].1, &w[1].1) != Ordering::Less), "latest first");
        vp::check(got.windows(2).all(|w| w[0].1 != w[1].1 || w[0].2 < w[1].2), "equal versions in repository order");
        for v in ["1.3", "5.5"].iter().copied().chain(flat.iter().filter_map(|w| w.1.as_deref())) {
            let g = wait(m.get_package(n, Some(v))).unwrap().map(|p| of(&p));
            vp::check(g == flat.iter().find(|w| w.0 == n && w.1.as_deref() == Some(v)).cloned(), "from the first repository that has it");
        }
        let g = wait(m.get_package(n, None)).unwrap().map(|p| of(&p));
        let first = all.iter().find(|a| a.iter().any(|w| w.0 == n));
        vp::check(g == first.and_then(|a| a.iter().filter(|w| w.0 == n).max_by(|a, b| newer(&a.1, &b.1)).cloned()), "the latest of the first repository that has it");
    }
    let mut names: Vec<String> = flat.iter().map(|w| w.0.clone()).collect();
    names.sort(); names.dedup();
    vp::check(wait(m.list_packages()).unwrap() == names, "every name once, in order");
    vp::cover("looked up");
}
fn pat(p: &[u8], t: &[u8]) -> bool { match p.first() { None => t.is_empty(), Some(b'*') => (0..=t.len()).any(|i| pat(&p[1..], &t[i..])), Some(b'?') => !t.is_empty() && pat(&p[1..], &t[1..]), Some(c) => t.first() == Some(c) && pat(&p[1..], &t[1..]) } }
/// The indexed repository.
#[no_mangle]
pub extern "C" fn h_scan_index() {
    let d = vp::scratch();
    let r = format!("{d}/r");
    std::fs::create_dir_all(&r).unwrap();
    let mut want: Vec<P> = Vec::new();
    let (v, w) = (format!("1.{}", vp::byte_of(b"123456789") as char), "1.5".to_string());
    vp::hash_mode(vp::choice(vp::param(0, 2) as u8) as u64 + 1);
    let mut nv = 0;
    let crit = vp::flag();
    if crit || vp::flag() { put(&format!("{r}/ab/{v}"), &def("ab", Some(&v), "variants = [['x'], ['y']]\n")); want.push(("ab".to_string(), Some(v.clone()), String::new())); nv = 2; }
    if crit { vp::assume(v == "1.7"); }
    if crit || vp::flag() { vp::assume(v != w); put(&format!("{r}/ab/{w}"), &def("ab", Some(&w), "")); want.push(("ab".to_string(), Some(w.clone()), String::new())); }
    match if crit { 1 } else { vp::choice(4) } { 0 => {} 1 => { put(&format!("{r}/a_c"), &def("a_c", None, "")); want.push(("a_c".to_string(), None, String::new())); } 2 => put(&format!("{r}/bad/1"), "name = \n"), _ => std::fs::write(format!("{r}/f"), "x").unwrap() }
    vp::show!("{want:?}");
    let mut s = FileSystemRepository::new(std::path::PathBuf::from(&r), None);
    wait(s.initialize()).unwrap();
    if !crit { for n in ["ab", "a_c", "zz"] {
        let mut vs: Vec<String> = want.iter().filter(|w| w.0 == n).filter_map(|w| w.1.clone()).collect();
        vs.sort(); vs.reverse();
        vp::check(wait(s.get_package_versions(n)).unwrap().iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>() == vs, "all versions, latest first");
        vp::check(wait(s.package_exists(n, None)).unwrap() == want.iter().any(|w| w.0 == n), "exists");
        let top = want.iter().filter(|w| w.0 == n).max_by(|a, b| newer(&a.1, &b.1)).map(|w| w.1.clone());
        vp::check(wait(s.get_package(n, None)).unwrap().map(|p| of(&p).1) == top, "the latest version is given");
        for x in [&v, &w] {
            let pv = Version::parse(x).unwrap();
            let there = want.iter().any(|w| w.0 == n && w.1.as_ref() == Some(x));
            vp::check(wait(s.package_exists(n, Some(&pv))).unwrap() == there, "exists exactly");
            vp::check(wait(s.get_package(n, Some(&pv))).unwrap().map(|p| of(&p)) .is_some_and(|p| p.0 == n && p.1.as_ref() == Some(x)) == there, "the version asked for is given");
        }
    }
    if nv > 0 { vp::check(wait(s.get_package_variants("ab", Some(&Version::parse(&v).unwrap()))).unwrap().len() == 2, "variants"); }
    let st = wait(s.get_stats()).unwrap();
    vp::check(st.package_count == want.len() && st.version_count == want.len() && st.variant_count == nv, "counts");
    let mut names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
    names.sort(); names.dedup();
    vp::check(wait(s.get_package_names()).unwrap() == names, "every name once, in order");
    vp::cover("looked up");
    return; }
    // criteria
    let pt = if vp::flag() { let k = vp::choice(vp::param(1, 2) as u8 + 1) as usize; Some(vp::string_of(k, b"a*?._")) } else { None };
    let vr = match vp::choice(3) { 0 => None, 1 => Some(v.clone()), _ => Some(String::new()) };
    let lim = [None, Some(1), Some(2)][vp::choice(3) as usize];
    let exp: Vec<P> = sorted(want.iter().filter(|w| pt.as_ref().is_none_or(|p| pat(p.as_bytes(), w.0.as_bytes())) && match (&vr, &w.1) { (Some(r), Some(x)) => r.is_empty() || r == x, _ => true }).cloned().collect());
    let got = wait(s.find_packages(&PackageSearchCriteria { name_pattern: pt, version_requirement: vr, limit: lim, include_prerelease: true, ..Default::default() })).unwrap();
    let got: Vec<P> = got.iter().map(|p| { let q = of(p); (q.0, q.1, String::new()) }).collect();
    vp::check(got.iter().all(|g| exp.contains(g)) && (1..got.len()).all(|i| !got[..i].contains(&got[i])), "only packages that match");
    vp::check(got.len() == lim.unwrap_or(9).min(exp.len()), "all packages that match, up to the limit");
    vp::cover("matched");
}
/// Searching.
#[no_mangle]
pub extern "C" fn h_search() {
    vp::hash_mode(vp::choice(vp::param(0, 1) as u8) as u64 + 1);
    let d = vp::scratch();
    let mut all: Vec<(usize, &str, Option<String>)> = Vec::new();
    let c = vp::byte_of(if vp::param(1, 0) > 0 { b"012346789" } else { b"29" }) as char;
    for i in 0..2 {
        let r = format!("{d}/r{i}");
        let k = if i == 0 { vp::choice(2) } else { vp::choice(3) };
        if k == 2 { continue; }
        std::fs::create_dir_all(&r).unwrap();
        if k == 1 {
            for v in [format!("1.{c}"), "1.10".to_string(), "1.5".to_string()] { put(&format!("{r}/ab/{v}"), &def("ab", Some(&v), "")); all.push((i, "ab", Some(v))); }
        }
        if i == 0 && vp::flag() { put(&format!("{r}/Abc/2.0"), &def("Abc", Some("2.0"), "")); all.push((i, "Abc", Some("2.0".to_string()))); }
        if i == 0 && vp::flag() { put(&format!("{r}/b"), &def("b", None, "")); all.push((i, "b", None)); }
    }
    let p = ["", "a", "AB", "b", "abc"][vp::choice(5) as usize];
    let mode = vp::choice(4);
    let range = [None, Some("1.5+"), Some("2.0")][vp::choice(3) as usize];
    let lim = vp::choice(3) as usize;
    let scope = if lim > 0 { 1 } else { vp::choice(3) };
    let mut f = SearchFilter::new(p).with_mode([FilterMode::Exact, FilterMode::Prefix, FilterMode::Contains, FilterMode::Regex][mode as usize].clone()).with_limit(lim);
    if let Some(r) = range { f = f.with_version_range(r); }
    let o = SearchOptions { paths: Some((0..2).map(|i| std::path::PathBuf::from(format!("{d}/r{i}"))).collect()), scope: [SearchScope::Families, SearchScope::Packages, SearchScope::LatestOnly][scope as usize].clone(), filter: f, include_hidden: false };
    let key = |v: &Option<String>| v.as_ref().map(|v| { let (a, b) = v.split_once('.').unwrap(); (a.parse::<u32>().unwrap(), b.parse::<u32>().unwrap()) });
    let named = |n: &str| { let (l, q) = (n.to_lowercase(), p.to_lowercase()); p.is_empty() || match mode { 0 => l == q, 1 => l.starts_with(&q), 2 => l.contains(&q), _ => n.contains(p) } };
    let inr = |v: &Option<String>| match (range, key(v)) { (Some("1.5+"), Some(k)) => k >= (1, 5), (Some(_), Some(k)) => k == (2, 0), _ => true };
    let mut exp: Vec<(String, Vec<String>, String)> = Vec::new();
    for i in 0..2 { for n in ["Abc", "ab", "b"] {
        if !named(n) { continue; }
        let mut vs: Vec<_> = all.iter().filter(|a| a.0 == i && a.1 == n && inr(&a.2)).map(|a| a.2.clone()).collect();
        vs.sort_by_key(key);
        let mut vs: Vec<String> = vs.into_iter().map(|v| v.unwrap_or("unknown".to_string())).collect();
        vs.dedup();
        if scope == 2 { vs = vs.pop().into_iter().collect(); }
        if !vs.is_empty() { exp.push((n.to_string(), vs, format!("{d}/r{i}"))); }
    } }
    if lim > 0 { exp.truncate(lim); }
    exp.sort_by(|a, b| a.0.cmp(&b.0));
    let got = PackageSearcher::new(o).search();
    vp::show!("{got:?} {exp:?}");
    vp::check(got.results.iter().all(|r| r.latest.as_ref() == r.versions.last()), "the latest is the last");
    let got: Vec<_> = got.results.into_iter().map(|r| (r.name, r.versions, r.repo_path)).collect();
    vp::check(got == exp, "exactly the families and versions that match");
    vp::cover(if exp.is_empty() { "nothing" } else { "found" });
}
/// Reverse dependencies.
#[no_mangle]
pub extern "C" fn h_reverse() {
    vp::hash_mode(1);
    let d = vp::scratch();
    let lay = vp::choice(3);
    vp::fs_order(lay as u64 & 1);
    let r = format!("{d}/r");
    std::fs::create_dir_all(&r).unwrap();
    // what each family's latest version needs
    let opt = ["", "a", "a-1+", "aa", "!a", "~b-1", "b"];
    let mut need: Vec<(&str, &str, &str, &str)> = Vec::new();
    for n in ["b", "aa", "c"] {
        let full = vp::param(0, 0) > 0;
        let (q, w) = match n {
            "b" if !full => match vp::choice(11) { k @ 0..7 => (opt[k as usize], 0), 7 => ("a", 1), 8 => ("aa", 1), 9 => ("a-1+", 2), _ => ("aa", 2) },
            "aa" => (["", "a", "b"][vp::choice(3) as usize], 0),
            "c" if !full => match vp::choice(4) { 0 => ("", 0), 1 => ("aa", 0), 2 => ("a-1+", 1), _ => ("b", 2) },
            _ => (opt[vp::choice(7) as usize], vp::choice(3)),
        };
        let l = |s: &str| if s.is_empty() { "[]".to_string() } else { format!("['x', '{s}']") };
        let x = match w { 0 => format!("requires = {}\n", l(q)), 1 => format!("build_requires = {}\n", l(q)), _ => format!("variants = [{}]\n", if q.is_empty() { "['y']".to_string() } else { format!("['y'], ['{q}']") }) };
        let x = if n == "c" { format!("{x}plugin_for = ['{}']\n", ["a", "aa"][w as usize & 1]) } else { x };
        need.push((n, if w == 1 { "" } else { q }, q, ["a", "aa"][w as usize & 1]));
        if n == "b" && lay == 2 { put(&format!("{r}/b"), &def("b", None, &x)); }
        else { put(&format!("{r}/{n}/1.10"), &def(n, Some("1.10"), &x)); if n != "aa" { put(&format!("{r}/{n}/1.9"), &def(n, Some("1.9"), "requires = ['a', 'b', 'aa']\nplugin_for = ['b']\n")); } }
    }
    let build = vp::flag();
    let depth = [None, Some(1), Some(0)][if build { 0 } else { vp::choice(3) as usize }];
    vp::show!("{need:?} {build} {depth:?}");
    let (layers, _) = rez_next_repository::get_reverse_dependency_tree("a", depth, Some(vec![r.clone()]), build, false);
    let on = |n: &(&str, &str, &str, &str), t: &str| { let q = if build { n.2 } else { n.1 }; !q.starts_with(['!', '~']) && q.split('-').next() == Some(t) };
    let mut exp: Vec<Vec<String>> = vec![vec!["a".to_string()]];
    while depth.is_none_or(|d| exp.len() <= d) {
        let mut next: Vec<String> = need.iter().filter(|n| !exp.iter().flatten().any(|e| e == n.0) && exp.last().unwrap().iter().any(|t| on(n, t))).map(|n| n.0.to_string()).collect();
        if next.is_empty() { break; }
        next.sort();
        exp.push(next);
    }
    vp::show!("{layers:?} {exp:?}");
    let layers: Vec<Vec<String>> = layers.into_iter().map(|mut l| { l.sort(); l }).collect();
    vp::check(layers == exp, "exactly the packages that depend on it, by distance");
    let c = need[2];
    if depth == Some(0) { for t in ["a", "aa", "b"] { vp::check(rez_next_repository::get_plugins(t, Some(vec![r.clone()])) == if c.3 == t { vec!["c".to_string()] } else { vec![] }, "exactly its plugins"); } }
    vp::cover(if exp.len() > 2 { "chain" } else if exp.len() > 1 { "one" } else { "none" });
}
