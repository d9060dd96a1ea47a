//! The dependency resolver against a brute-force reference over small symbolic universes.
use crate::*;

/// Families have names of different lengths so that hash order (keyed by length) varies with the seed.
pub const FAM: [&str; 4] = ["a", "bb", "ccc", "dddd"];
#[derive(Clone, Copy, PartialEq)]
pub enum Mark { Need, Weak, Conflict }
/// A requirement: mark, family, kind (0 any, 1 `-d`, 2 `>=d`, 3 `<d`, 4 `==d`), digit.
#[derive(Clone, Copy)]
pub struct Rq { pub mark: Mark, pub fam: usize, pub kind: u8, pub d: u8 }
pub struct Pk { pub fam: usize, pub ver: u8, pub req: Vec<Rq> }
pub fn digit() -> u8 { let c = vp::byte(); vp::assume(c >= b'1' && c <= b'9'); c }
pub fn rq(mark: Mark, fam: usize, kind: u8) -> Rq { Rq { mark, fam, kind, d: if kind == 0 { b'0' } else { digit() } } }
impl Rq {
    pub fn text(&self) -> String {
        let d = self.d as char;
        let m = match self.mark { Mark::Need => "", Mark::Weak => "~", Mark::Conflict => "!" };
        let f = FAM[self.fam];
        match self.kind { 0 => format!("{m}{f}"), 1 => format!("{m}{f}-{d}"), 2 => format!("{m}{f}>={d}"), 3 => format!("{m}{f}<{d}"), _ => format!("{m}{f}=={d}") }
    }
    /// Does version `v` match the version part?
    pub fn has(&self, v: u8) -> bool { match self.kind { 0 => true, 1 | 4 => v == self.d, 2 => v >= self.d, _ => v < self.d } }
    /// Does a selection (version per family) honour this requirement?
    pub fn ok(&self, sel: &[Option<u8>; 4]) -> bool {
        match (self.mark, sel[self.fam]) {
            (Mark::Need, Some(v)) => self.has(v),
            (Mark::Need, None) => false,
            (Mark::Weak, Some(v)) => self.has(v),
            (Mark::Conflict, Some(v)) => !self.has(v),
            (_, None) => true,
        }
    }
}
pub fn packages(u: &[Pk]) -> Vec<Package> {
    u.iter().map(|p| { let r: Vec<String> = p.req.iter().map(|r| r.text()).collect(); pkg(FAM[p.fam], std::str::from_utf8(&[p.ver]).unwrap(), &r) }).collect()
}
pub fn show(u: &[Pk], q: &[Rq]) {
    for p in u { let r: Vec<String> = p.req.iter().map(|r| r.text()).collect(); vp::show!("package {}-{} requires {r:?}", FAM[p.fam], p.ver as char); }
    let r: Vec<String> = q.iter().map(|r| r.text()).collect();
    vp::show!("request {r:?}");
}
/// Every family needed (directly or through needed packages) from the request, given a selection.
fn reach(u: &[Pk], q: &[Rq], sel: &[Option<u8>; 4]) -> [bool; 4] {
    let mut r = [false; 4];
    for x in q { if x.mark == Mark::Need { r[x.fam] = true; } }
    for _ in 0..4 {
        for p in u { if r[p.fam] && sel[p.fam] == Some(p.ver) { for x in &p.req { if x.mark == Mark::Need { r[x.fam] = true; } } } }
    }
    r
}
fn cyclic(u: &[Pk], sel: &[Option<u8>; 4]) -> bool {
    let mut e = [[false; 4]; 4];
    for p in u { if sel[p.fam] == Some(p.ver) { for x in &p.req { if x.mark != Mark::Conflict { e[p.fam][x.fam] = true; } } } }
    for k in 0..4 { for i in 0..4 { for j in 0..4 { if e[i][k] && e[k][j] { e[i][j] = true; } } } }
    (0..4).any(|i| e[i][i])
}
/// Is the selection a solution: every requirement of the request and of every selected package honoured.
pub fn solution(u: &[Pk], q: &[Rq], sel: &[Option<u8>; 4]) -> bool {
    q.iter().all(|x| x.ok(sel)) && u.iter().all(|p| sel[p.fam] != Some(p.ver) || p.req.iter().all(|x| x.ok(sel)))
}
pub fn exists(u: &[Pk], q: &[Rq]) -> bool {
    let mut sel = [None; 4];
    fn go(u: &[Pk], q: &[Rq], f: usize, sel: &mut [Option<u8>; 4]) -> bool {
        if f == 4 { return solution(u, q, sel) && !cyclic(u, sel); }
        sel[f] = None;
        if go(u, q, f + 1, sel) { return true; }
        for p in u { if p.fam == f { sel[f] = Some(p.ver); if go(u, q, f + 1, sel) { return true; } } }
        sel[f] = None;
        false
    }
    go(u, q, 0, &mut sel)
}
pub fn selection(u: &[Pk], r: &[rez_next_solver::ResolvedPackageInfo]) -> [Option<u8>; 4] {
    let mut sel = [None; 4];
    for i in r {
        let n = i.package.name.as_str();
        let f = FAM.iter().position(|x| *x == n);
        vp::check(f.is_some(), "only known packages are resolved");
        let f = f.unwrap();
        vp::check(sel[f].is_none(), "one version per package");
        let v = i.package.version.as_ref().unwrap().as_str().as_bytes()[0];
        vp::check(u.iter().any(|p| p.fam == f && p.ver == v), "every resolved package exists in the repository");
        sel[f] = Some(v);
    }
    sel
}
pub fn texts(q: &[Rq]) -> Vec<String> { q.iter().map(|r| r.text()).collect() }

/// Versions of one family: `n` distinct digits, listed in any order if `free`, else ascending.
fn versions(n: usize, free: bool) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    for i in 0..n {
        let d = digit();
        if i > 0 { if free { for e in &v { vp::assume(d != *e); } } else { vp::assume(d > v[i - 1]); } }
        v.push(d);
    }
    v
}
/// Dependencies of `a` (family 0): nothing, bb, ccc, not bb, weakly ccc, both.
fn deps_a(menu: u8, kinds: u8) -> Vec<Rq> {
    match vp::choice(menu) {
        0 => vec![],
        1 => vec![rq(Mark::Need, 1, vp::choice(kinds))],
        2 => vec![rq(Mark::Conflict, 1, vp::choice(kinds))],
        3 => vec![rq(Mark::Need, 2, vp::choice(kinds))],
        4 => vec![rq(Mark::Weak, 2, vp::choice(kinds))],
        _ => vec![rq(Mark::Need, 1, 0), rq(Mark::Need, 2, vp::choice(kinds))],
    }
}
/// Dependencies of `bb` (family 1): nothing, ccc, not ccc, weakly ccc, not a, a.
fn deps_b(menu: u8, kinds: u8) -> Vec<Rq> {
    match vp::choice(menu) {
        0 => vec![],
        1 => vec![rq(Mark::Need, 2, vp::choice(kinds))],
        2 => vec![rq(Mark::Conflict, 2, vp::choice(kinds))],
        3 => vec![rq(Mark::Weak, 2, vp::choice(kinds))],
        4 => vec![rq(Mark::Conflict, 0, vp::choice(kinds))],
        _ => vec![rq(Mark::Need, 0, vp::choice(kinds))],
    }
}
/// a: 2 versions, bb: 2 versions, ccc: `nc` versions; dependencies from menus, digits symbolic.
fn universe(menu_a: u8, menu_b: u8, kinds: u8, nc: usize) -> Vec<Pk> {
    let free = vp::param(5, 0) != 0;
    let mut u: Vec<Pk> = Vec::new();
    for ver in versions(2, free) { u.push(Pk { fam: 0, ver, req: deps_a(menu_a, kinds) }); }
    for ver in versions(2, free) { u.push(Pk { fam: 1, ver, req: deps_b(menu_b, kinds) }); }
    for ver in versions(nc, free) { u.push(Pk { fam: 2, ver, req: vec![] }); }
    u
}
fn request(menu: u8) -> Vec<Rq> {
    let n = Mark::Need;
    match vp::choice(menu) {
        0 => vec![rq(n, 0, 0)],
        1 => vec![rq(n, 1, 0), rq(n, 0, 0)],
        2 => vec![rq(n, 0, 0), rq(n, 1, 0)],
        3 => vec![rq(n, 0, 0), rq(n, 2, 1)],
        4 => vec![rq(n, 0, 0), rq(Mark::Conflict, 2, 1)],
        5 => vec![rq(n, 2, 0), rq(n, 0, 0)],
        _ => vec![rq(n, 0, 0), rq(Mark::Weak, 1, 2)],
    }
}
fn param_universe() -> (Vec<Pk>, Vec<Rq>) {
    let u = universe(vp::param(1, 4) as u8, vp::param(2, 3) as u8, vp::param(3, 2) as u8, vp::param(4, 1) as usize);
    let q = request(vp::param(0, 3) as u8);
    show(&u, &q);
    (u, q)
}
fn show_sel(sel: &[Option<u8>; 4]) { vp::show!("resolved {:?}", sel.iter().map(|s| s.map(|c| c as char)).collect::<Vec<_>>()); }
fn sound(u: &[Pk], q: &[Rq]) {
    match resolve(&packages(u), &texts(q), true, true) {
        Ok(r) => {
            let sel = selection(u, &r.resolved_packages);
            show_sel(&sel);
            vp::check(r.failed_requirements.is_empty(), "a strict resolve that succeeds reports no failed requirement");
            vp::check(solution(u, q, &sel), "a resolved set honours every requirement, weak requirement and conflict");
            let need = reach(u, q, &sel);
            vp::check((0..4).all(|f| sel[f].is_none() || need[f]), "nothing unneeded is resolved");
            vp::cover("resolved");
        }
        Err(_) => vp::cover("failed"),
    }
}
#[no_mangle]
pub extern "C" fn h_res_sound() { let (u, q) = param_universe(); sound(&u, &q) }
#[no_mangle]
pub extern "C" fn h_res_complete() {
    let (u, q) = param_universe();
    let r = resolve(&packages(&u), &texts(&q), true, true);
    if let Err(e) = &r { vp::show!("error {e}"); }
    let ok = r.is_ok() || !exists(&u, &q);
    // Recorded finding: with dependencies in several families the search gives up too early.
    if !ok && u.iter().any(|p| p.fam == 1 && !p.req.is_empty()) { vp::known("C13-two-step-backtracking"); }
    vp::check(ok, "a failed strict resolve means there is no solution");
    vp::cover(if r.is_ok() { "resolved" } else { "failed" });
}
/// Two requested packages that both constrain a third.
fn diamond(marks: u8, kinds: u8, nc: usize) -> (Vec<Pk>, Vec<Rq>) {
    let mut u: Vec<Pk> = Vec::new();
    for f in 0..2 {
        for ver in versions(2, false) {
            let req = match vp::choice(marks + 1) { 0 => vec![], 1 => vec![rq(Mark::Need, 2, vp::choice(kinds))], 2 => vec![rq(Mark::Conflict, 2, vp::choice(kinds))], _ => vec![rq(Mark::Weak, 2, vp::choice(kinds))] };
            u.push(Pk { fam: f, ver, req });
        }
    }
    for ver in versions(nc, false) { u.push(Pk { fam: 2, ver, req: vec![] }); }
    let n = Mark::Need;
    let q = match vp::choice(2) { 0 => vec![rq(n, 0, 0), rq(n, 1, 0)], _ => vec![rq(n, 2, 0), rq(n, 0, 0), rq(n, 1, 0)] };
    show(&u, &q);
    (u, q)
}
#[no_mangle]
pub extern "C" fn h_res_diamond() { let (u, q) = diamond(vp::param(0, 3) as u8, vp::param(1, 2) as u8, vp::param(2, 2) as usize); sound(&u, &q) }

/// Without strict mode: whatever is not honoured is reported.
#[no_mangle]
pub extern "C" fn h_res_lenient() {
    let (u, q) = param_universe();
    match resolve(&packages(&u), &texts(&q), false, true) {
        Ok(r) => {
            let sel = selection(&u, &r.resolved_packages);
            show_sel(&sel);
            let mut bad = [false; 4];
            for x in &q { if !x.ok(&sel) { bad[x.fam] = true; } }
            for p in &u { if sel[p.fam] == Some(p.ver) { for x in &p.req { if !x.ok(&sel) { bad[x.fam] = true; } } } }
            for f in 0..4 {
                let told = r.failed_requirements.iter().any(|x| x.name == FAM[f]);
                vp::check(!bad[f] || told, "a requirement that is not honoured is reported as failed");
                let told = r.failed_requirements.iter().any(|x| x.name == FAM[f] && !x.weak);
                vp::check(bad[f] || !told, "a requirement reported as failed is not honoured");
            }
            vp::cover(if bad.iter().any(|b| *b) { "partial" } else { "resolved" });
        }
        Err(_) => vp::cover("failed"),
    }
}
fn same(u: &[Pk], a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => selection(u, &a.resolved_packages) == selection(u, &b.resolved_packages),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
/// The outcome depends on nothing but the packages and the request: not on hash seeds.
#[no_mangle]
pub extern "C" fn h_res_seeds() {
    let (u, q) = if vp::param(6, 0) == 0 { param_universe() } else { diamond(vp::param(0, 3) as u8, vp::param(1, 2) as u8, 1) };
    let (p, t) = (packages(&u), texts(&q));
    let strict = vp::choice(2) == 0;
    vp::hash_mode(1001);
    let a = resolve(&p, &t, strict, true);
    vp::hash_mode(1002 + vp::choice(vp::param(7, 2) as u8) as u64);
    let b = resolve(&p, &t, strict, true);
    vp::check(same(&u, &a, &b), "two resolves of the same request agree");
    vp::cover(if a.is_ok() { "resolved" } else { "failed" });
}
/// ... and not on the order in which the repository lists the packages.
#[no_mangle]
pub extern "C" fn h_res_listing() {
    let (u, q) = param_universe();
    let (p, t) = (packages(&u), texts(&q));
    let mut p2 = p.clone();
    p2.reverse();
    let a = resolve(&p, &t, true, true);
    let b = resolve(&p2, &t, true, true);
    vp::check(same(&u, &a, &b), "the repository's listing order does not matter");
    vp::cover(if a.is_ok() { "resolved" } else { "failed" });
}
/// When the newest (or oldest) allowed version of every package fits together, that is the result.
#[no_mangle]
pub extern "C" fn h_res_prefer() {
    let (u, q) = param_universe();
    let latest = vp::choice(2) == 0;
    let mut best = [None; 4];
    for p in &u {
        if q.iter().all(|x| x.fam != p.fam || (x.mark == Mark::Conflict) != x.has(p.ver)) {
            best[p.fam] = match best[p.fam] { None => Some(p.ver), Some(b) => Some(if (p.ver > b) == latest { p.ver } else { b }) };
        }
    }
    let need = reach(&u, &q, &best);
    for f in 0..4 { if !need[f] { best[f] = None; } }
    if !solution(&u, &q, &best) || cyclic(&u, &best) { return vp::cover("unclear"); }
    match resolve(&packages(&u), &texts(&q), true, latest) {
        Ok(r) => { let sel = selection(&u, &r.resolved_packages); show_sel(&sel); vp::check(sel == best, "the preferred version of every package is picked when they fit together"); vp::cover("resolved"); }
        Err(e) => { vp::show!("error {e}"); vp::check(false, "the preferred versions fit together, so the resolve succeeds"); }
    }
}
/// A package with two variants: the picked variant's requirements hold too.
#[no_mangle]
pub extern "C" fn h_res_variants() {
    let kinds = vp::param(0, 2) as u8;
    let item = || match vp::choice(vp::param(1, 3) as u8) { 0 => rq(Mark::Need, 1, vp::choice(kinds)), 1 => rq(Mark::Conflict, 1, vp::choice(kinds)), 2 => rq(Mark::Need, 2, vp::choice(kinds)), _ => rq(Mark::Weak, 1, vp::choice(kinds)) };
    let var = [vec![item()], vec![item()]];
    let mut u: Vec<Pk> = Vec::new();
    u.push(Pk { fam: 0, ver: b'1', req: vec![] });
    for ver in versions(2, false) { u.push(Pk { fam: 1, ver, req: vec![] }); }
    u.push(Pk { fam: 2, ver: digit(), req: vec![] });
    let n = Mark::Need;
    let q = match vp::choice(4) { 0 => vec![rq(n, 0, 0)], 1 => vec![rq(n, 1, 1), rq(n, 0, 0)], 2 => vec![rq(n, 0, 0), rq(n, 1, 1)], _ => vec![rq(n, 2, 0), rq(n, 0, 0)] };
    show(&u, &q);
    let mut p = packages(&u);
    p[0].variants = var.iter().map(|v| texts(v)).collect();
    vp::show!("variants of a {:?}", p[0].variants);
    match resolve(&p, &texts(&q), true, true) {
        Ok(r) => {
            let sel = selection(&u, &r.resolved_packages);
            show_sel(&sel);
            vp::check(solution(&u, &q, &sel), "a resolved set honours every requirement, weak requirement and conflict");
            for i in &r.resolved_packages {
                if i.package.name == "a" {
                    vp::check(i.variant_index.is_some_and(|k| k < 2), "a package with variants is resolved to one of them");
                    let k = i.variant_index.unwrap();
                    vp::show!("variant {k}");
                    vp::check(var[k].iter().all(|x| x.ok(&sel)), "the requirements of the picked variant are honoured");
                    vp::cover(if k == 0 { "first" } else { "second" });
                } else { vp::check(i.variant_index.is_none(), "a package without variants has no variant"); }
            }
        }
        Err(_) => vp::cover("failed"),
    }
}
/// Two repositories: the newest version wins, the first repository wins a tie.
#[no_mangle]
pub extern "C" fn h_res_repos() {
    let (a, b) = (digit(), digit());
    let mk = |v: u8, tag: &str| { let mut p = pkg("a", std::str::from_utf8(&[v]).unwrap(), &[]); p.description = Some(tag.to_string()); Arc::new(p) };
    let mut m = RepositoryManager::new();
    m.add_repository(Box::new(Mem(vec![mk(a, "one")])));
    m.add_repository(Box::new(Mem(vec![mk(b, "two")])));
    vp::show!("a-{} in the first repository, a-{} in the second", a as char, b as char);
    let mut r = DependencyResolver::new(Arc::new(m), SolverConfig::default());
    let r = block_on(r.resolve(vec!["a".parse().unwrap()]));
    vp::check(r.is_ok(), "the request resolves");
    let r = r.unwrap();
    vp::check(r.resolved_packages.len() == 1, "one package is resolved");
    let one = r.resolved_packages[0].package.description.as_deref() == Some("one");
    vp::check(one == (a >= b), "the newest version is picked, from the first repository that has it");
    vp::cover(if one { "one" } else { "two" });
}
/// Prereleases are picked only when allowed.
#[no_mangle]
pub extern "C" fn h_res_prerelease() {
    let words = ["alpha", "beta", "rc1", "dev", "pre2", "snapshot", "final", "x"];
    let w = vp::choice(words.len() as u8) as usize;
    let mut word: Vec<u8> = words[w].as_bytes().to_vec();
    let i = vp::choice(word.len() as u8) as usize;
    if vp::choice(2) == 1 { word[i] = word[i].to_ascii_uppercase(); }
    let (a, b) = (digit(), digit());
    vp::assume(a != b);
    let pre = format!("{}.{}", b as char, std::str::from_utf8(&word).unwrap());
    let allow = vp::choice(2) == 1;
    let mut m = RepositoryManager::new();
    m.add_repository(Box::new(Mem(vec![Arc::new(pkg("a", std::str::from_utf8(&[a]).unwrap(), &[])), Arc::new(pkg("a", &pre, &[]))])));
    vp::show!("a-{} and a-{pre}, prereleases allowed: {allow}", a as char);
    let mut r = DependencyResolver::new(Arc::new(m), SolverConfig { allow_prerelease: allow, ..SolverConfig::default() });
    let r = block_on(r.resolve(vec!["a".parse().unwrap()]));
    vp::check(r.is_ok(), "the request resolves");
    let r = r.unwrap();
    vp::check(r.resolved_packages.len() == 1, "one package is resolved");
    let picked = r.resolved_packages[0].package.version.as_ref().unwrap().as_str() == pre;
    vp::check(picked == (b > a && (allow || w >= 6)), "a prerelease is picked only if allowed");
    vp::cover(if picked { "word" } else { "plain" });
}
