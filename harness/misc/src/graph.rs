//! The dependency graph.
use rez_next_package::Package;
use rez_next_solver::DependencyGraph;
use rez_next_version::Version;
const N: usize = 4;
const NAMES: [&str; N] = ["a", "bb", "ccc", "dddd"];
fn pk(i: usize) -> Package { let mut p = Package::new(NAMES[i].to_string()); p.version = Some(Version::parse("1").unwrap()); p }
fn key(i: usize) -> String { format!("{}-1", NAMES[i]) }
fn idx(k: &str) -> usize { NAMES.iter().position(|n| k.len() == n.len() + 2 && k.starts_with(n)).unwrap() }
#[no_mangle]
pub extern "C" fn h_graph() {
    let n = vp::param(0, 3) as usize;
    let seed = vp::choice(vp::param(1, 3) as u8) as u64;
    vp::hash_mode(1000 + seed);
    let mut g = DependencyGraph::new();
    let mut there = [false; N];
    let mut e = [[false; N]; N];
    for i in 0..n { g.add_package(pk(i)).unwrap(); there[i] = true; }
    for i in 0..n { for j in 0..n { if (i != j || i == 1) && vp::flag() { g.add_dependency_edge(&key(i), &key(j)).unwrap(); e[i][j] = true; } } }
    // one more step: nothing, re-add a package, remove one, an edge to a missing package that then arrives
    let k = vp::choice(4);
    match k {
        1 => g.add_package(pk(0)).unwrap(),
        2 => { g.remove_package(&key(1)).unwrap(); there[1] = false; for i in 0..N { e[1][i] = false; e[i][1] = false; } }
        3 => { vp::check(g.add_dependency_edge(&key(0), "zz-1").is_err() && g.add_dependency_edge("zz-1", &key(0)).is_err(), "an edge to a missing package is refused"); let mut z = pk(0); z.name = "zz".to_string(); g.add_package(z).unwrap(); g.remove_package("zz-1").unwrap(); let mut z = pk(0); z.name = "zz".to_string(); g.add_package(z).unwrap(); }
        _ => {}
    }
    let total = there.iter().filter(|t| **t).count() + (k == 3) as usize;
    // reference: reachability
    let mut r = e;
    for k in 0..N { for i in 0..N { for j in 0..N { r[i][j] |= r[i][k] && r[k][j]; } } }
    let cyclic = (0..N).any(|i| r[i][i]);
    vp::show!("edges {e:?} step {k} cyclic {cyclic}");
    vp::check(g.len() == total, "packages added and removed are counted");
    match g.get_resolved_packages() {
        Ok(v) => {
            vp::check(!cyclic, "a cycle is reported");
            vp::check(v.len() == total, "every package appears once");
            let pos = |i: usize| v.iter().position(|p| p.name == NAMES[i]);
            for i in 0..n { vp::check(pos(i).is_some() == there[i], "every package appears once"); for j in 0..n { if e[i][j] { vp::check(pos(i) < pos(j), "packages come before what they depend on"); } } }
            vp::cover("sorted");
        }
        Err(_) => { vp::check(cyclic, "an acyclic graph is sorted"); vp::cover("cycle") }
    }
    match g.find_cycle() {
        None => vp::check(!cyclic, "a cycle is found"),
        Some(c) => {
            vp::check(!c.is_empty(), "a cycle has members");
            let c: Vec<usize> = c.iter().map(|k| idx(k)).collect();
            for w in 0..c.len() { vp::check(e[c[w]][c[(w + 1) % c.len()]], "a reported cycle follows real edges"); }
        }
    }
    let acc = g.accessibility();
    vp::check(acc.len() == total, "reachability covers every package");
    for i in 0..n { if there[i] { for j in 0..n { vp::check(acc[&key(i)].contains(&key(j)) == ((there[j] && i == j) || r[i][j]), "reachability follows the edges"); } } }
    let s = g.get_stats();
    vp::check(s.node_count == total && s.edge_count == e.iter().flatten().filter(|x| **x).count(), "statistics count packages and edges");
    if !cyclic {
        let mut d = [0usize; N];
        for _ in 0..N { for i in 0..N { if there[i] { d[i] = 1 + (0..N).filter(|&j| e[i][j]).map(|j| d[j]).max().unwrap_or(0); } } }
        vp::check(s.max_depth == d.iter().copied().max().unwrap().max((total > 0) as usize), "depth is the longest chain");
    }
}
/// Conflicts between requirements, and exclusions.
#[no_mangle]
pub extern "C" fn h_graph_req() {
    use rez_next_package::PackageRequirement;
    vp::hash_mode(1000 + vp::choice(2) as u64);
    let n = 1 + vp::choice(vp::param(0, 3) as u8) as usize;
    let mut g = DependencyGraph::new();
    let mut rs: Vec<(bool, u8, u8)> = vec![];
    for _ in 0..n {
        let (other, k) = (vp::flag(), vp::choice(6));
        let c = { let c = vp::byte(); vp::assume(c >= b'1' && c <= b'9'); c };
        let name = if other { "bb" } else { "a" }.to_string();
        let d = c as char;
        let r = match k { 0 => PackageRequirement::new(name), 1 => PackageRequirement::with_version(name, format!(">={d}")), 2 => PackageRequirement::with_version(name, format!("<{d}")), 3 => PackageRequirement::with_version(name, format!("=={d}")), 4 => PackageRequirement::with_version(name, format!(">{d}")), _ => PackageRequirement::with_version(name, format!("<={d}")) };
        g.add_requirement(r).unwrap();
        rs.push((other, k, 2 * (c - b'0')));
    }
    // halves stand for the versions between two whole ones
    let holds = |r: &(bool, u8, u8), x: u8| match r.1 { 0 => true, 1 => x >= r.2, 2 => x < r.2, 3 => x == r.2, 4 => x > r.2, _ => x <= r.2 };
    let mut want = [false; 2];
    for i in 0..n { for j in i + 1..n { if rs[i].0 == rs[j].0 { let mut common = false; for x in 0..21 { common |= holds(&rs[i], x) & holds(&rs[j], x); } if !common { want[rs[i].0 as usize] = true; } } } }
    let c = g.detect_conflicts();
    vp::show!("{rs:?} -> {:?} expected {want:?}", c.iter().map(|c| &c.package_name).collect::<Vec<_>>());
    for (i, nm) in ["a", "bb"].iter().enumerate() {
        vp::check(c.iter().filter(|c| c.package_name == *nm).count() == want[i] as usize, "a package is in conflict exactly when two of its requirements share no version");
        for c in c.iter().filter(|c| c.package_name == *nm) { vp::check(c.conflicting_requirements.len() == rs.iter().filter(|r| r.0 == (i == 1)).count(), "a conflict names the requirements on its package"); }
    }
    vp::check(g.get_stats().conflict_count == c.len(), "statistics count conflicts");
    let ex = vp::choice(3);
    if ex > 0 { g.add_exclusion(NAMES[ex as usize - 1].to_string()).unwrap(); }
    for i in 0..2 { vp::check(g.add_package(pk(i)).is_ok() == (ex as usize != i + 1), "an excluded package is refused, others are accepted"); }
    vp::check(g.len() == 2 - (ex > 0) as usize, "a refused package is not added");
    vp::cover(if want[0] { "conflict" } else { "compatible" });
}
