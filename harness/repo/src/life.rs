//! Ignoring and removing packages of a repository.
use crate::tree::*;
use rez_next_repository::package_repository::PackageRepository;
use rez_next_repository::FilesystemPackageRepository as F;
use std::fs;
const V: [&str; 2] = ["1.0", "2"];
fn listed(r: &F) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for f in r.iter_package_families().unwrap() { for p in r.iter_packages(&f).unwrap() { v.push((p.name().to_string(), p.version().map(|v| v.as_str().to_string()).unwrap_or_default())); } }
    v.sort();
    v
}
fn setup(root: &str) -> ([bool; 2], [bool; 2]) {
    let (mut there, mut ign) = ([false; 2], [false; 2]);
    fs::create_dir_all(format!("{root}/r/q/1/lib")).unwrap();
    fs::write(format!("{root}/r/q/1/package.py"), "q").unwrap();
    fs::write(format!("{root}/keep"), "k").unwrap();
    for (i, v) in V.iter().enumerate() {
        let k = vp::choice(4);
        if k & 1 > 0 { fs::create_dir_all(format!("{root}/r/p/{v}/lib")).unwrap(); fs::write(format!("{root}/r/p/{v}/package.py"), [b'p', vp::byte()]).unwrap(); fs::write(format!("{root}/r/p/{v}/lib/m"), "m").unwrap(); there[i] = true; }
        if k & 2 > 0 { fs::create_dir_all(format!("{root}/r/p")).unwrap(); fs::write(format!("{root}/r/p/.ignore{v}"), "").unwrap(); ign[i] = true; }
    }
    (there, ign)
}
/// Any sequence of operations.
#[no_mangle]
pub extern "C" fn h_life() {
    let root = vp::scratch();
    let (mut there, mut ign) = setup(&root);
    let ro = vp::choice(4) == 3;
    let mut r = F::new(format!("{root}/r")).with_read_only(ro);
    let mut family = fs::exists(format!("{root}/r/p")).unwrap();
    for _ in 0..vp::param(0, 2) {
        let t0 = snap(&root);
        let i = vp::choice(2) as usize;
        let v = V[i];
        let old = (there, ign, family);
        let op = vp::choice(8);
        let res: Result<i64, ()> = match op {
            0 | 1 => r.ignore_package("p", Some(v), op == 1).map(|x| x as i64).map_err(|_| ()),
            2 => r.unignore_package("p", Some(v)).map(|x| x as i64).map_err(|_| ()),
            3 => r.remove_package("p", Some(v)).map(|x| x as i64).map_err(|_| ()),
            4 | 5 => r.remove_package_family("p", op == 5).map(|x| x as i64).map_err(|_| ()),
            _ => r.remove_ignored_since(i as i32, op == 7, false).map(|x| x as i64).map_err(|_| ()),
        };
        let exp: Result<i64, ()> = if ro { Err(()) } else { match op {
            0 | 1 => if op == 0 && !there[i] { Ok(-1) } else { family = true; let o = ign[i]; ign[i] = true; Ok(!o as i64) },
            2 => { let o = ign[i]; ign[i] = false; Ok(if there[i] { o as i64 } else { -1 }) }
            3 => if there[i] { there[i] = false; ign[i] = false; Ok(1) } else { Ok(0) },
            4 | 5 => if !family { Ok(0) } else if op == 4 && (there[0] || there[1]) { Err(()) } else { there = [false; 2]; ign = [false; 2]; family = false; Ok(1) },
            _ => if i == 1 { Ok(0) } else { let mut n = 0; for j in 0..2 { if there[j] && ign[j] { n += 1; if op == 6 { there[j] = false; ign[j] = false; } } } Ok(n) },
        } };
        let t1 = snap(&root);
        vp::show!("op {op} {v} ro {ro} {old:?} -> {:?} result {res:?} expected {exp:?}\n{t1:?}", (there, ign, family));
        vp::check(res == exp, "the operation reports what it did");
        // the directory holds exactly that
        let mut want = without(&t0, "r/p");
        if family { want = plus_dir(&want, "r/p"); }
        for j in 0..2 {
            let at = format!("r/p/{}", V[j]);
            if there[j] { want.extend(t0.iter().filter(|e| e.0 == at || e.0.starts_with(&format!("{at}/"))).cloned()); }
            if ign[j] { want.push((format!("r/p/.ignore{}", V[j]), Nd::File(vec![]))); }
        }
        want.sort_by(|a, b| a.0.cmp(&b.0));
        vp::check(t1 == want, "nothing else changes");
        let mut l: Vec<(String, String)> = (0..2).filter(|&j| there[j] && !ign[j]).map(|j| ("p".to_string(), V[j].to_string())).collect();
        l.push(("q".to_string(), "1".to_string()));
        l.sort();
        vp::check(listed(&r) == l, "exactly the packages that are there and not ignored are listed");
        for j in 0..2 { vp::check(r.get_package("p", Some(V[j])).unwrap().is_some() == (there[j] && !ign[j]), "an ignored package is not given"); }
        vp::cover(["ignored", "ignored", "unignored", "removed", "family", "family", "swept", "swept"][op as usize]);
    }
}
/// Removal that fails part way.
#[no_mangle]
pub extern "C" fn h_life_fault() {
    let root = vp::scratch();
    let (there, ign) = setup(&root);
    let mut r = F::new(format!("{root}/r"));
    let i = vp::choice(2) as usize;
    let op = vp::choice(3);
    let t0 = snap(&root);
    let k = vp::choice(vp::param(0, 12) as u8 + 1) as u64;
    if k > 0 { vp::fs_fault(k - 1, 28, vp::flag()); } else { vp::fs_clear(); }
    let ok = match op { 0 => r.remove_package("p", Some(V[i])).is_ok(), 1 => r.ignore_package("p", Some(V[i]), false).is_ok(), _ => r.remove_ignored_since(0, false, false).is_ok() };
    vp::fs_clear();
    let t1 = snap(&root);
    let l = listed(&r);
    vp::show!("op {op} {} {there:?} {ign:?} fault {k} ok {ok}\n{t0:?}\n{t1:?}", V[i]);
    for j in 0..2 {
        let at = format!("r/p/{}", V[j]);
        let same = sub(&t0, &at) == sub(&t1, &at);
        let shown = l.iter().any(|x| x.0 == "p" && x.1 == V[j]);
        vp::check(!shown || same && there[j], "a package still listed is whole");
        let target = if op == 2 { ign[j] } else { j == i };
        if !target { vp::check(same && shown == (there[j] && !ign[j]), "other versions stay as they were"); }
        if ok && op == 1 { vp::check(same, "ignoring keeps the files"); }
    }
    vp::check(without(&t0, "r/p") == without(&t1, "r/p"), "other packages stay as they were");
    vp::check(k > 0 || ok, "without a fault it succeeds");
    vp::cover(if ok { "done" } else { "failed" });
}
/// Names and versions that are paths.
#[no_mangle]
pub extern "C" fn h_life_names() {
    let root = vp::scratch();
    setup(&root);
    let n = ["p", "", "..", ".", "../r/q", "q/1", "/s/r/q", "p/"][vp::choice(8) as usize];
    let n = if n.starts_with('/') { format!("{root}/r/q") } else { n.to_string() };
    let v = ["1.0", "", "..", ".", "../../q/1", "../q", "1.0/lib", "x/../1.0"][vp::choice(8) as usize];
    let abs = format!("{root}/keep");
    let v = if vp::choice(9) == 8 { &abs } else { v };
    let badn = n.is_empty() || n == "." || n.contains("..") || n.trim_end_matches('/').contains('/');
    let badv = v.is_empty() || v == "." || v.contains("..") || v.contains('/');
    vp::assume(badn || badv);
    vp::assume(n != "p/" || badv);
    let t0 = snap(&root);
    let mut r = F::new(format!("{root}/r"));
    let op = vp::choice(5);
    let bad = match op { 0 => r.ignore_package(&n, Some(v), true).is_err(), 1 => r.unignore_package(&n, Some(v)).is_err(), 2 => r.remove_package(&n, Some(v)).is_err(), 3 => !badn || r.remove_package_family(&n, true).is_err(), _ => r.get_package_payload_path(&n, Some(v)).is_err() };
    vp::show!("{n:?} {v:?} op {op}");
    vp::check(snap(&root) == t0, "nothing changes");
    vp::check(bad, "a path is refused");
    vp::cover("refused");
}
