//! Package copy, move and remove on a (model) file system, with a fault at any step.
use crate::tree::*;
use rez_next_package::package_copy::{copy_package, PackageCopyConfig};
use rez_next_package::package_move::{move_package, PackageMoveConfig};
use rez_next_package::package_remove::{preview_removal, remove_package_family, remove_package_version, PackageRemoveConfig};
use std::fs;
use std::path::{Path, PathBuf};
/// A package directory with one file of symbolic content, a subdirectory and a link.
fn package(dir: &str, big: bool) {
    fs::create_dir_all(dir).unwrap();
    let c = vp::byte();
    fs::write(format!("{dir}/package.py"), [b'n', c]).unwrap();
    if big {
        fs::create_dir_all(format!("{dir}/lib/e")).unwrap();
        fs::write(format!("{dir}/lib/m"), [c]).unwrap();
        std::os::unix::fs::symlink("lib/m", format!("{dir}/z")).unwrap();
    }
}
struct World { root: String, first: Option<usize>, there: [bool; 3], alt: bool }
const R: [&str; 3] = ["x/y/r0", "x/y/r1", "x/y/d"];
/// Repositories r0, r1 and destination d, each with or without p-1; sometimes other packages.
fn world(more: bool) -> World {
    let root = vp::scratch();
    let alt = more && vp::flag();
    let there = [vp::flag(), vp::flag(), vp::flag()];
    for (i, r) in R.iter().enumerate() {
        fs::create_dir_all(format!("{root}/{r}")).unwrap();
        if there[i] { package(&if alt && i < 2 { format!("{root}/{r}/p/p-1") } else { format!("{root}/{r}/p/1") }, i == 0); }
    }
    if vp::flag() { package(&format!("{root}/{}/p/12", R[0]), false); package(&format!("{root}/{}/q/1", R[0]), false); }
    let first = if there[0] { Some(0) } else if there[1] { Some(1) } else { None };
    World { root, first, there, alt }
}
impl World {
    fn search(&self) -> Vec<PathBuf> { R[..2].iter().map(|r| PathBuf::from(format!("{}/{r}", self.root))).collect() }
    fn src(&self, i: usize) -> String { format!("{}/p/{}", R[i], if self.alt { "p-1" } else { "1" }) }
    fn base(&self, i: usize) -> PathBuf { PathBuf::from(format!("{}/{}", self.root, R[i])) }
}
/// Fail one (or one and all later) of the first `n` mutating operations, or none.
fn faults(n: u64) -> bool {
    let k = vp::choice(n as u8 + 1) as u64;
    if k == 0 { vp::fs_clear(); return false; }
    vp::fs_fault(k - 1, 28, vp::flag());
    true
}
#[no_mangle]
pub extern "C" fn h_fs_copy() {
    let w = world(true);
    let force = vp::flag();
    let d = 2 - vp::choice(vp::param(1, 2) as u8) as usize; // destination: d, or a search path
    let (dest, dbase) = (format!("{}/p/1", R[d]), w.base(d));
    let mut t0 = snap(&w.root);
    let c = PackageCopyConfig { packages_path: w.search(), force, normalize_paths: true };
    let faulty = faults(vp::param(0, 0));
    let r = copy_package("p", "1", &dbase, &c);
    vp::fs_clear();
    let t1 = snap(&w.root);
    vp::show!("there {:?} alt {} force {force} -> {dest} faulty {faulty}\nbefore {t0:?}\nresult {r:?}\nafter {t1:?}", w.there, w.alt);
    match (&r, w.first) {
        (Ok(r), Some(s)) => {
            vp::check(sub(&t1, &dest) == sub(&t0, &w.src(s)), "the copy equals the source");
            vp::check(force || !has(&t0, &dest), "an existing package is only replaced with force");
            for at in [format!("{}/p", R[d]), dest.clone()] { t0 = plus_dir(&t0, &at); }
            vp::check(without(&t0, &dest) == without(&t1, &dest), "nothing else changes");
            let n = sub(&t1, &dest).iter().filter(|e| e.1 != Nd::Dir).count();
            vp::check(r.files_copied == n, "the file count is right");
            vp::cover("copied");
        }
        (Ok(_), None) => vp::check(false, "a missing package is not copied"),
        (Err(_), s) => {
            vp::check(faulty || s.is_none() || has(&t0, &dest), "a copy that can be made is made");
            if let Some(s) = s { vp::check(sub(&t1, &w.src(s)) == sub(&t0, &w.src(s)), "a failed copy leaves the source alone"); }
            if !faulty && !force { vp::check(t0 == t1, "a refused copy changes nothing"); }
            if !force && has(&t0, &dest) { vp::check(t0 == t1, "without force an existing package is untouched"); }
            t0 = plus_dir(&t0, &format!("{}/p", R[d]));
            let t1 = plus_dir(&t1, &format!("{}/p", R[d]));
            vp::check(without(&t0, &dest) == without(&t1, &dest), "a failed copy changes nothing but its destination");
            vp::cover("failed");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_fs_move() {
    let w = world(true);
    let (force, keep) = (vp::flag(), vp::flag());
    let d = 2 - vp::choice(vp::param(1, 2) as u8) as usize;
    let (dest, dbase) = (format!("{}/p/1", R[d]), w.base(d));
    let t0 = snap(&w.root);
    let c = PackageMoveConfig { packages_path: w.search(), force, keep_source: keep, normalize_paths: true };
    let faulty = faults(vp::param(0, 0));
    let r = move_package("p", "1", &dbase, &c);
    vp::fs_clear();
    let t1 = snap(&w.root);
    vp::show!("there {:?} alt {} force {force} keep {keep} -> {dest} faulty {faulty}\nbefore {t0:?}\nresult {r:?}\nafter {t1:?}", w.there, w.alt);
    let Some(s) = w.first else { vp::check(r.is_err() && t0 == t1, "a missing package is not moved"); vp::cover("failed"); return };
    let (src, fam) = (w.src(s), format!("{}/p", R[s]));
    let old = sub(&t0, &src);
    // what may change: the source, its family directory (pruned when empty), the destination
    let rest = |t: &Tree| { let mut t = plus_dir(&plus_dir(t, &fam), &format!("{}/p", R[d])); t = without(&without(&t, &src), &dest); t };
    vp::check(rest(&t0) == rest(&t1), "a move touches only its source and destination");
    match &r {
        Ok(r) => {
            vp::check(sub(&t1, &dest) == old, "the moved package equals the source");
            vp::check(r.source_removed == !keep, "the result says whether the source was removed");
            if keep { vp::check(sub(&t1, &src) == old, "keep_source keeps the source"); } else { vp::check(!has(&t1, &src), "the source is gone"); }
            vp::check(force || !has(&t0, &dest), "an existing package is only replaced with force");
            vp::check(keep || has(&t1, &fam) == (sub(&without(&t0, &src), &fam).len() > 1 || R[d] == R[s]), "an emptied family directory is removed, and only then");
            vp::cover("moved");
        }
        Err(_) => {
            vp::check(faulty || src == dest || has(&t0, &dest), "a move that can be made is made");
            vp::check(sub(&t1, &src) == old || sub(&t1, &dest) == old, "a failed move leaves one complete copy");
            if !faulty { vp::check(t0 == t1, "a refused move changes nothing"); }
            vp::cover("failed");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_fs_remove() {
    let w = world(false);
    let fam = vp::flag();
    let prune = vp::flag();
    let t0 = snap(&w.root);
    let c = PackageRemoveConfig { packages_path: w.search(), force: true, prune_empty_families: prune };
    let view = preview_removal("p", if fam { None } else { Some("1") }, &w.search());
    vp::check(snap(&w.root) == t0, "a preview changes nothing");
    let faulty = faults(vp::param(0, 0));
    let r = if fam { remove_package_family("p", &c) } else { remove_package_version("p", "1", &c) };
    vp::fs_clear();
    let t1 = snap(&w.root);
    vp::show!("there {:?} family {fam} prune {prune} faulty {faulty}\nbefore {t0:?}\nresult {r:?}\nafter {t1:?}", w.there);
    let (mut a, mut b) = (t0.clone(), t1.clone());
    let mut gone = 0;
    for i in 0..2 {
        let (f, v) = (format!("{}/p", R[i]), format!("{}/p/1", R[i]));
        let target = if fam { &f } else { &v };
        if has(&t0, target) { gone += 1; if r.is_ok() { vp::check(!has(&t1, target), "what is removed is gone"); } }
        a = without(&a, target);
        b = without(&b, target);
        if !fam && prune && w.there[i] {
            let left = sub(&without(&t0, &v), &f).len() > 1;
            if r.is_ok() { vp::check(has(&t1, &f) == left, "an emptied family directory is removed, and only then"); }
            if !left { a = without(&a, &f); b = without(&b, &f); }
        }
    }
    vp::check(a == b, "nothing else changes");
    match r { Ok(r) => { vp::check(r.versions_removed == gone && r.removed_paths == view && view.len() == gone, "the preview and the result list exactly what was removed"); vp::cover(if gone > 0 { "removed" } else { "nothing" }) } Err(_) => { vp::check(faulty, "removal fails only on faults"); vp::cover("failed") } }
}
/// Names that are not single path components never reach outside the package.
#[no_mangle]
pub extern "C" fn h_fs_names() {
    let root = vp::scratch();
    for r in R { fs::create_dir_all(format!("{root}/{r}")).unwrap(); }
    package(&format!("{root}/{}/p/1", R[0]), false);
    package(&format!("{root}/{}/q/1", R[0]), false);
    package(&format!("{root}/{}/q/1", R[2]), false);
    fs::create_dir_all(format!("{root}/{}/p", R[2])).unwrap();
    let abs = format!("{root}/{}/q", R[0]);
    let name = ["p", "", ".", "..", "p/../q", abs.as_str()][vp::choice(6) as usize];
    let ver = ["1", "", ".", "..", "../q", "../q/1", abs.as_str()][vp::choice(7) as usize];
    vp::assume(name != "p" || ver != "1");
    let paths: Vec<PathBuf> = vec![PathBuf::from(format!("{root}/{}", R[0]))];
    let d = PathBuf::from(format!("{root}/{}", R[2]));
    let d: &Path = &d;
    let t0 = snap(&root);
    let k = vp::choice(4);
    let ok = match k {
        0 => remove_package_version(name, ver, &PackageRemoveConfig { packages_path: paths, force: true, prune_empty_families: true }).is_ok_and(|r| r.versions_removed > 0),
        1 => { vp::assume(ver == "1"); remove_package_family(name, &PackageRemoveConfig { packages_path: paths, force: true, prune_empty_families: true }).is_ok_and(|r| r.versions_removed > 0) }
        2 => copy_package(name, ver, d, &PackageCopyConfig { packages_path: paths, force: true, normalize_paths: true }).is_ok(),
        _ => move_package(name, ver, d, &PackageMoveConfig { packages_path: paths, force: true, keep_source: false, normalize_paths: true }).is_ok(),
    };
    let t1 = snap(&root);
    vp::show!("op {k} name {name:?} version {ver:?} ok {ok}\nbefore {t0:?}\nafter {t1:?}");
    vp::check(t0 == t1 && !ok, "a name or version that is a path is refused and nothing changes");
    vp::cover("refused");
}
