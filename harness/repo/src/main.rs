//! Repositories: scanning, lookup, search and lifecycle.
mod life;
mod pcache;
mod scan;
mod tree;
use life::*;
use pcache::*;
use scan::*;
pub fn wait<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut c = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut c) { return r; } }
    panic!("never ready")
}
vp::harnesses!(h_scan, h_scan_many, h_scan_index, h_search, h_reverse, h_life, h_life_fault, h_life_names, h_cache, h_cache_fault);
