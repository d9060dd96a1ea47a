//! The context's environment manager.
use crate::sh::*;
use rez_next_context::{ContextConfig, EnvironmentManager, PathStrategy, ShellType};
use rez_next_package::Package;
use rez_next_rex::RexEnvironment;
use rez_next_version::Version;
use std::collections::HashMap;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(r) => r, Poll::Pending => { vp::check(false, "nothing is waited for"); unreachable!() } }
}
fn pkg(n: &str) -> Package { let mut p = Package::new(n.to_string()); p.version = Some(Version::parse("1.2").unwrap()); p }
fn run(c: ContextConfig, base: HashMap<String, String>, p: &[Package]) -> RexEnvironment {
    let r = block_on(EnvironmentManager::with_base_environment(c, base).generate_rex_environment(p));
    vp::check(r.is_ok(), "supported statements run");
    r.ok().unwrap()
}
fn lower() -> u8 { let c = vp::byte(); vp::assume(c >= b'a' && c <= b'z'); c }
/// Phases: pre_commands of all packages, then commands of all, then post_commands of all.
#[no_mangle]
pub extern "C" fn h_env_phases() {
    rez_next_rex::parser::get_cached_parser();
    vp::hash_mode(1000 + vp::choice(2) as u64);
    let mut p = vec![pkg("a"), pkg("bb")];
    let base = vp::choice(2) == 1;
    let mut v: Option<Vec<u8>> = if base { Some(vec![b'0']) } else { None };
    // statement kinds per (phase, package): none, set, prepend, append, unset, set-if-empty
    let mut stmts: Vec<(u8, u8)> = Vec::new();
    for _ in 0..6 { let k = if stmts.iter().filter(|s| s.0 != 0).count() >= vp::param(0, 3) as usize { 0 } else { vp::choice(6) }; stmts.push((k, if k == 0 || k == 4 { b'-' } else { lower() })); }
    for ph in 0..3 {
        for q in 0..2 {
            let (k, c) = stmts[ph * 2 + q];
            let ch = c as char;
            let t = match k { 0 => None, 1 => Some(format!("setenv('V', '{ch}')")), 2 => Some(format!("prependenv('V', '{ch}')")), 3 => Some(format!("appendenv('V', '{ch}')")), 4 => Some("unsetenv('V')".to_string()), _ => Some(format!("env.setenv_if_empty('V', '{ch}')")) };
            match ph { 0 => p[q].pre_commands = t, 1 => p[q].commands = t, _ => p[q].post_commands = t }
            v = match (k, v) {
                (0, v) => v,
                (1, _) => Some(vec![c]),
                (2, Some(o)) => { let mut w = vec![c, b':']; w.extend(o); Some(w) }
                (3, Some(mut o)) => { o.push(b':'); o.push(c); Some(o) }
                (4, _) => None,
                (5, Some(o)) => Some(o),
                _ => Some(vec![c]),
            };
        }
    }
    vp::show!("pre {:?}/{:?} main {:?}/{:?} post {:?}/{:?}", p[0].pre_commands, p[1].pre_commands, p[0].commands, p[1].commands, p[0].post_commands, p[1].post_commands);
    let mut b = HashMap::new();
    if base { b.insert("V".to_string(), "0".to_string()); }
    let e = run(ContextConfig::default(), b, &p);
    vp::show!("V = {:?}", e.vars.get("V"));
    vp::check(e.vars.get("V").map(|s| s.as_bytes().to_vec()) == v, "commands run phase by phase, package by package");
    vp::check(e.vars.get("A_VERSION").map(|s| s.as_str()) == Some("1.2") && e.vars.get("BB_VERSION").map(|s| s.as_str()) == Some("1.2") && e.vars.contains_key("A_ROOT") && e.vars.contains_key("BB_ROOT"), "every package gets its root and version variable");
    vp::check(e.vars.len() == 4 + e.vars.contains_key("V") as usize, "nothing else is set");
    vp::check(!e.stopped, "not stopped");
    vp::cover("run");
}
/// Every package's commands see that package's own root, version and name, in every phase, and nothing else's.
#[no_mangle]
pub extern "C" fn h_env_refs() {
    rez_next_rex::parser::get_cached_parser();
    vp::hash_mode(1000 + vp::choice(2) as u64);
    let vs = [["n.n.n", "n", "n.n"][vp::choice(3) as usize], ["n.n", "n.n.n", ""][vp::choice(3) as usize]].map(vp::shaped);
    let mut p = vec![Package::new("a".to_string()), Package::new("bb".to_string())];
    let disk = vp::choice(2) == 1;
    let ph = vp::choice(3);
    let (r, kind) = [("{root}", 0), ("{this.root}", 0), ("{version}", 1), ("{this.version}", 1), ("{this.version.major}", 2), ("{this.version.minor}", 3), ("{this.version.patch}", 4), ("{name}", 5), ("{this.name}", 5)][vp::choice(9) as usize];
    let mut want = Vec::new();
    let mut roots = Vec::new();
    for i in 0..2 {
        if !vs[i].is_empty() { p[i].version = Some(Version::parse(&vs[i]).unwrap()); }
        let root = if disk { p[i].filepath = Some(format!("/r/{}/x{i}/package.py", p[i].name)); format!("/r/{}/x{i}", p[i].name) } else { format!("/packages/{}", p[i].name) };
        let part: Vec<&str> = vs[i].split('.').filter(|s| !s.is_empty()).collect();
        let w = match kind { 0 => root.clone(), 1 => if vs[i].is_empty() { r.to_string() } else { vs[i].clone() }, 5 => p[i].name.clone(), k => part.get(k - 2).map_or(r.to_string(), |s| s.to_string()) };
        want.push(w);
        roots.push(root);
        let t = Some(format!("appendenv('V', '{r}')"));
        match ph { 0 => p[i].pre_commands = t, 1 => p[i].commands = t, _ => p[i].post_commands = t }
    }
    let e = run(ContextConfig::default(), HashMap::new(), &p);
    vp::show!("{r} in {:?} {:?} -> {:?}, expected {want:?}", vs[0], vs[1], e.vars.get("V"));
    vp::check(e.vars.get("V") == Some(&want.join(":")), "references are the running package's own");
    vp::check(e.vars.get("A_ROOT") == Some(&roots[0]) && e.vars.get("BB_ROOT") == Some(&roots[1]), "every package gets its root variable");
    vp::check(e.vars.get("A_VERSION") == Some(&vs[0]) && e.vars.get("BB_VERSION").cloned().unwrap_or_default() == vs[1], "and its version variable");
    vp::cover("run");
}
/// PATH: tool directories per strategy, duplicates dropped (first kept), other variables untouched.
#[no_mangle]
pub extern "C" fn h_env_path() {
    vp::hash_mode(1000 + vp::choice(3) as u64);
    let st = match vp::choice(4) { 0 => PathStrategy::Prepend, 1 => PathStrategy::Append, 2 => PathStrategy::Replace, _ => PathStrategy::NoModify };
    let n = vp::choice(4) as usize;
    let ent: Vec<String> = (0..n).map(|_| { let c = vp::byte(); vp::assume(c >= b'a' && c <= b'c'); format!("/{}", c as char) }).collect();
    let mut b = HashMap::new();
    if n > 0 { b.insert("PATH".to_string(), ent.join(":")); }
    let other = vp::choice(3);
    let okey = ["", "Path", "PATHS"][other as usize];
    if other > 0 { b.insert(okey.to_string(), "/q:/q".to_string()); }
    let mut p = vec![pkg("a"), pkg("bb")];
    let (t0, t1) = (vp::choice(3), vp::choice(2));
    for i in 0..t0 { p[0].tools.push(format!("t{i}")); }
    if t1 == 1 { p[1].tools.push("u".into()); }
    let mut c = ContextConfig::default();
    c.path_strategy = st.clone();
    let e = run(c, b, &p);
    let mut tools: Vec<String> = Vec::new();
    if t0 > 0 { tools.push("/packages/a/bin".into()); }
    if t1 > 0 { tools.push("/packages/bb/bin".into()); }
    let mut all = match (&st, tools.is_empty()) { (_, true) | (PathStrategy::NoModify, _) => ent.clone(), (PathStrategy::Prepend, _) => [tools, ent.clone()].concat(), (PathStrategy::Append, _) => [ent.clone(), tools].concat(), _ => tools };
    let mut seen: Vec<String> = Vec::new();
    all.retain(|x| if seen.contains(x) { false } else { seen.push(x.clone()); true });
    let want = if n == 0 && all.is_empty() { None } else { Some(all.join(":")) };
    vp::show!("strategy {st:?} PATH {ent:?} tools {t0} {t1} -> {:?} expected {want:?}", e.vars.get("PATH"));
    vp::check(e.vars.get("PATH") == want.as_ref(), "PATH is the strategy's combination with duplicates dropped");
    if other > 0 { vp::check(e.vars.get(okey).map(|s| s.as_str()) == Some("/q:/q"), "other variables are left alone"); }
    vp::cover("path");
}
/// Configured variables come last; unset wins; stop() is reported; the rest of the base environment survives.
#[no_mangle]
pub extern "C" fn h_env_config() {
    rez_next_rex::parser::get_cached_parser();
    vp::hash_mode(1000 + vp::choice(3) as u64);
    let mut p = vec![pkg("a")];
    let (x, y, z) = (lower(), lower(), lower());
    let set = vp::choice(2) == 1;
    let stop = vp::choice(3);
    p[0].commands = Some(format!("{}{}alias('al', '{}')\ncommand('run')", if set { format!("setenv('V', '{}')\n", x as char) } else { String::new() }, ["", "stop('no')\n", "info('hi')\n"][stop as usize], x as char));
    let mut b = HashMap::new();
    b.insert("KEEP".to_string(), (y as char).to_string());
    b.insert("V".to_string(), "base".to_string());
    let mut c = ContextConfig::default();
    let add = vp::choice(2) == 1;
    if add { c.additional_env_vars.insert("V".into(), (z as char).to_string()); c.additional_env_vars.insert("NEW".into(), "n".into()); }
    let un = vp::choice(3);
    if un > 0 { c.unset_vars.push(["", "V", "GONE"][un as usize].to_string()); }
    let e = run(c, b.clone(), &p);
    vp::show!("set {set} stop {stop} add {add} unset {un}: {e:?}");
    let want = if un == 1 { None } else if add { Some((z as char).to_string()) } else if set { Some((x as char).to_string()) } else { Some("base".to_string()) };
    vp::check(e.vars.get("V") == want.as_ref(), "package commands, then configured variables, then unset");
    vp::check(e.vars.get("KEEP").map(|s| s.as_bytes().to_vec()) == Some(vec![y]), "the base environment survives");
    vp::check(e.vars.get("NEW").is_some() == add, "configured variables are set");
    vp::check(e.stopped == (stop == 1), "stop() is reported");
    if stop == 1 { vp::check(e.stop_message.as_deref() == Some("no"), "with its message"); }
    else { vp::check(e.aliases.get("al").map(|s| s.as_bytes().to_vec()) == Some(vec![x]) && e.startup_commands == ["run"], "aliases and commands are kept"); }
    let d = EnvironmentManager::with_base_environment(ContextConfig::default(), b.clone()).get_env_diff(&e.vars);
    for (k, v) in &e.vars {
        let o = b.get(k);
        vp::check(d.added.get(k).is_some() == o.is_none(), "the difference lists exactly the added variables");
        vp::check(d.modified.get(k).is_some() == o.is_some_and(|o| o != v), "the difference lists exactly the changed variables");
        vp::check(d.added.get(k).is_none_or(|a| a == v) && d.modified.get(k).is_none_or(|(a, b)| Some(a) == o && b == v), "with their old and new values");
    }
    vp::check(d.removed.len() == b.keys().filter(|k| !e.vars.contains_key(*k)).count() && d.removed.iter().all(|k| b.contains_key(k) && !e.vars.contains_key(k)), "the difference lists exactly the removed variables");
    vp::cover(if e.stopped { "stopped" } else { "done" });
}
#[no_mangle]
pub extern "C" fn h_env_script() {
    let (ty, sh) = match vp::choice(4) { 0 => (ShellType::Bash, Sh::Bash), 1 => (ShellType::Zsh, Sh::Bash), 2 => (ShellType::Fish, Sh::Fish), _ => (ShellType::PowerShell, Sh::Ps) };
    let mut v = String::new();
    for _ in 0..vp::param(0, 3) { let c = vp::byte(); vp::assume(c != 0 && c < 0x80 && c != b'\r'); v.push(c as char); }
    let mut c = ContextConfig::default();
    c.shell_type = ty.clone();
    let m = EnvironmentManager::with_base_environment(c, HashMap::new());
    let mut e = HashMap::new();
    e.insert("AA".to_string(), "x".to_string());
    e.insert("B".to_string(), v.clone());
    let s = m.generate_shell_script(&e).ok().unwrap();
    vp::show!("{ty:?} value {v:?}\n{s}");
    let got = Rd::new(&s, sh).script();
    vp::check(got.is_some(), "the script is well formed and runs nothing hidden in a value");
    let got = got.unwrap();
    vp::check(got.len() == 2 && got.contains(&St::Var(b"AA".to_vec(), b"x".to_vec())) && got.contains(&St::Var(b"B".to_vec(), v.as_bytes().to_vec())), "the script sets exactly the environment's values");
    vp::cover(match sh { Sh::Bash => "bash", Sh::Fish => "fish", Sh::Ps => "powershell" });
}
