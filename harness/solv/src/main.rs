use async_trait::async_trait;
use rez_next_common::RezCoreError;
use rez_next_package::{Package, Requirement};
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager};
use rez_next_solver::{DependencyResolver, SolverConfig};
use rez_next_version::Version;
use std::future::Future;
use std::path::Path;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// In-memory repository: the packages, in the given order.
pub struct Mem(pub Vec<Arc<Package>>);
#[async_trait]
impl PackageRepository for Mem {
    async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> { Ok(self.0.iter().filter(|p| p.name == name).cloned().collect()) }
    async fn get_package(&self, _: &str, _: Option<&str>) -> Result<Option<Arc<Package>>, RezCoreError> { Ok(None) }
    async fn list_packages(&self) -> Result<Vec<String>, RezCoreError> { Ok(vec![]) }
    fn name(&self) -> &str { "mem" }
    fn root_path(&self) -> &Path { Path::new("/mem") }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) { Poll::Ready(r) => r, Poll::Pending => { vp::check(false, "the resolver waits for nothing"); unreachable!() } }
}
pub fn pkg(name: &str, ver: &str, requires: &[String]) -> Package {
    let mut p = Package::new(name.to_string());
    p.version = Some(Version::parse(ver).unwrap());
    p.requires = requires.to_vec();
    p
}
pub type Res = Result<rez_next_solver::DetailedResolutionResult, RezCoreError>;
pub fn resolve(pk: &[Package], req: &[String], strict: bool, latest: bool) -> Res {
    let mut m = RepositoryManager::new();
    m.add_repository(Box::new(Mem(pk.iter().cloned().map(Arc::new).collect())));
    let cfg = SolverConfig { strict_mode: strict, prefer_latest: latest, max_attempts: 20, ..SolverConfig::default() };
    let mut r = DependencyResolver::new(Arc::new(m), cfg);
    let reqs: Vec<Requirement> = req.iter().map(|s| s.parse().unwrap()).collect();
    block_on(r.resolve(reqs))
}
mod res;
use res::*;
vp::harnesses!(h_res_sound, h_res_complete, h_res_diamond, h_res_lenient, h_res_seeds, h_res_listing, h_res_prefer, h_res_variants, h_res_repos, h_res_prerelease);
