//! The package cache.
use rez_next_package_cache::{CacheBackend, CachedPackage, FileCache, InMemoryCache, PackageCache};
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, SystemTime};
fn stamp(p: &str, t: Duration) { std::fs::File::options().write(true).open(p).unwrap().set_modified(SystemTime::UNIX_EPOCH + t).unwrap(); }
const T0: Duration = Duration::new(1_600_000_000, 500_000_000);
/// Puts, changes of the source, gets, removals and restarts.
#[no_mangle]
pub extern "C" fn h_cache() {
    vp::hash_mode(1);
    let d = vp::scratch();
    let file = vp::flag();
    let cd = format!("{d}/c");
    let open = || -> PackageCache { if file { PackageCache::new(Arc::new(FileCache::new(&cd).unwrap())) } else { PackageCache::new(Arc::new(InMemoryCache::new())) } };
    let src = [format!("{d}/a.py"), format!("{d}/b.py")];
    for s in &src { std::fs::write(s, "x").unwrap(); stamp(s, T0); }
    let mut c = open();
    // per source: its time (none if deleted), and the entry: data, time of the source then, still in time
    let mut at = [Some(T0), Some(T0)];
    let mut ent: [Option<(u8, Duration, bool)>; 2] = [None, None];
    let mut next = 0u8;
    for _ in 0..vp::param(0, 3) {
        let i = vp::choice(2) as usize;
        match vp::choice(7) {
            0 => {
                if let Some(t) = at[i] {
                    let ttl = vp::choice(4);
                    next += 1;
                    let p = CachedPackage { name: "n".to_string(), version: "1".to_string(), path: src[i].clone().into(), mtime: SystemTime::UNIX_EPOCH + t, data: next.to_string(), cached_at: SystemTime::now() - Duration::from_secs(3600), ttl: [None, Some(Duration::from_secs(3000)), Some(Duration::from_secs(4000)), None][ttl as usize] };
                    if ttl == 3 { c.put_package(Path::new(&src[i]), "n", "1", &next.to_string()).unwrap() } else { c.put(Path::new(&src[i]), p).unwrap() }
                    ent[i] = Some((next, t, ttl != 1));
                }
            }
            1 => { if let Some(t) = at[i] { let t = [t + Duration::from_millis(10), t + Duration::from_secs(1), t - Duration::from_secs(5), t + Duration::from_nanos(1)][vp::choice(4) as usize]; std::fs::write(&src[i], "y").unwrap(); stamp(&src[i], t); at[i] = Some(t); } }
            2 => { if at[i].is_some() { std::fs::remove_file(&src[i]).unwrap(); at[i] = None; } }
            3 => { c.remove(Path::new(&src[i])).unwrap(); ent[i] = None; }
            4 => { if i == 0 { c.clear().unwrap(); } else { c.invalidate_stale().unwrap(); } ent = [None, None]; }
            5 => { c = open(); if !file { ent = [None, None]; } }
            _ => { std::fs::write(&src[i], "z").unwrap(); stamp(&src[i], T0); at[i] = Some(T0); }
        }
        for j in 0..2 {
            let want = ent[j].filter(|e| e.2 && at[j].is_some_and(|t| t <= e.1 && e.1 - t < Duration::from_secs(1)));
            let g = c.get(Path::new(&src[j]));
            vp::show!("{j} {at:?} {ent:?} -> {g:?}");
            if i == 1 && j == 1 && want.is_some() { vp::check(c.get(Path::new(&src[j])).unwrap().is_some(), "an entry stays"); }
            match g {
                Err(_) => vp::check(false, "a lookup never fails"),
                Ok(None) => { vp::check(want.is_none(), "a valid entry is found"); ent[j] = None; vp::cover("miss") }
                Ok(Some(g)) => { vp::check(want.is_some(), "a stale entry is never given"); if let Some(w) = want { vp::check(g.data == w.0.to_string() && g.name == "n" && g.version == "1" && Path::new(&src[j]) == g.path, "the entry is the one stored last"); } vp::cover("hit") }
            }
        }
    }
}
/// A failing disk, and a restart after it.
#[no_mangle]
pub extern "C" fn h_cache_fault() {
    vp::hash_mode(1);
    let d = vp::scratch();
    let cd = format!("{d}/c");
    let s = format!("{d}/a.py");
    std::fs::write(&s, "x").unwrap(); stamp(&s, T0);
    let c = PackageCache::new(Arc::new(FileCache::new(&cd).unwrap()));
    let p = Path::new(&s);
    let had = vp::flag();
    if had { c.put_package(p, "n", "1", "old").unwrap(); }
    let ch = vp::flag();
    if ch { stamp(&s, T0 + Duration::from_millis(3)); }
    let k = vp::choice(6) as u64;
    if k > 0 { vp::fs_fault(k - 1, 28, vp::flag()); }
    let r = match vp::choice(3) { 0 => c.put_package(p, "n", "1", "new").is_ok(), 1 => c.get(p).is_ok(), _ => c.remove(p).is_ok() };
    vp::fs_clear();
    let again = PackageCache::new(Arc::new(FileCache::new(&cd).unwrap()));
    for (n, x) in [(0, &c), (1, &again)] {
        let g = x.get(p);
        vp::show!("had {had} changed {ch} fault {k} ok {r} cache {n} -> {g:?}");
        match g {
            Err(_) => vp::check(false, "a lookup never fails for good"),
            Ok(Some(g)) => vp::check(g.data == "new" || g.data == "old" && !ch, "a stale entry is never given"),
            Ok(None) => {}
        }
        vp::check(x.put_package(p, "n", "1", "more").is_ok() && x.get(p).unwrap().is_some_and(|g| g.data == "more"), "the cache works again");
        x.remove(p).unwrap();
        vp::check(x.get(p).unwrap().is_none(), "removed");
    }
    vp::cover(if r { "done" } else { "failed" });
}
