//! Suites: contexts, tools, saving and finding.
use rez_next_suites::{Suite, SuiteError, SuiteManager, ToolConflictMode as M};
const AL: [&str; 3] = ["t", "u", "b_t"];
const TO: [&str; 2] = ["x", "y"];
fn mode() -> M { match vp::choice(4) { 0 => M::Error, 1 => M::First, 2 => M::Last, _ => M::Prefix } }
/// The tools a suite exposes.
#[no_mangle]
pub extern "C" fn h_suite_tools() {
    vp::hash_mode(vp::choice(vp::param(2, 2) as u8) as u64 + 1);
    let m = mode();
    let mut s = Suite::new().with_conflict_mode(m.clone());
    let nc = vp::param(0, 2) as usize;
    let na = vp::param(1, 3) as usize;
    // context, alias, tool, in context order
    let mut want: Vec<(&str, &str, &str)> = Vec::new();
    for c in &["a", "b", "c"][..nc] {
        s.add_context(*c, vec![format!("p{c}"), "q".to_string()]).unwrap();
        let hide = vp::choice(3);
        let off = vp::choice(3) == 2;
        if off { s.get_context_mut(c).unwrap().disabled = true; }
        if hide > 0 { s.hide_tool(c, TO[hide as usize - 1]).unwrap(); if vp::param(3, 0) > 0 { s.hide_tool(c, TO[hide as usize - 1]).unwrap(); } }
        for a in &AL[..na] {
            let k = vp::choice(3);
            if k == 0 { continue; }
            let t = TO[k as usize - 1];
            s.alias_tool(c, *a, t).unwrap();
            if !off && hide != k { want.push((c, a, t)); }
        }
    }
    vp::show!("{m:?} {want:?}");
    let clash = |i: usize| want.iter().any(|w| w.1 == want[i].1 && w.0 != want[i].0);
    let any = (0..want.len()).any(clash);
    let r = s.get_tools();
    vp::show!("{r:?}");
    match r {
        Err(SuiteError::ToolConflict { tool, contexts }) => {
            let prefixed = m == M::Prefix && want.iter().any(|w| want.iter().any(|x| x.1 == format!("{}_{}", w.0, w.1)));
            vp::check(m == M::Error && any || prefixed, "a conflict is reported only when there is one");
            if m == M::Error { vp::check((0..want.len()).any(|i| clash(i) && want[i].1 == tool && contexts.split(", ").any(|c| c == want[i].0)), "the conflict names a tool in conflict"); }
            vp::cover("conflict");
        }
        Err(_) => vp::check(false, "another error"),
        Ok(r) => {
            vp::check(m != M::Error || !any, "a conflict is reported");
            for (n, t) in &r {
                vp::check(*n == t.name, "a tool has its name");
                vp::check(want.iter().any(|w| w.0 == t.context_name && w.2 == t.original_name && (w.1 == n || m == M::Prefix && *n == format!("{}_{}", w.0, w.1)) && t.package == format!("p{}", w.0)), "a tool shown is one a context gives");
                vp::check(t.is_alias == (*n != t.original_name) && !t.is_hidden, "alias mark");
            }
            let has = |n: &str, w: &(&str, &str, &str)| r.get(n).is_some_and(|t| t.context_name == w.0 && t.original_name == w.2);
            for (i, w) in want.iter().enumerate() {
                let first = !want[..i].iter().any(|x| x.1 == w.1);
                let last = !want[i + 1..].iter().any(|x| x.1 == w.1);
                match m {
                    M::First => vp::check(has(w.1, w) == first, "the first context wins"),
                    M::Last => vp::check(has(w.1, w) == last, "the last context wins"),
                    M::Prefix => {
                        let p = format!("{}_{}", w.0, w.1);
                        vp::check(has(w.1, w) || has(&p, w), "no tool is lost");
                        if first && !want.iter().any(|x| format!("{}_{}", x.0, x.1) == w.1) { vp::check(has(w.1, w), "the first keeps its plain name"); }
                    }
                    M::Error => vp::check(has(w.1, w), "every tool is shown"),
                }
            }
            let distinct = { let mut d: Vec<&str> = want.iter().map(|w| w.1).collect(); d.sort(); d.dedup(); d.len() };
            vp::check(r.len() == if m == M::Prefix { want.len() } else { distinct }, "as many tools as given");
            vp::cover("tools");
        }
    }
}
/// Adding and removing contexts, and names.
#[no_mangle]
pub extern "C" fn h_suite_contexts() {
    let mut s = Suite::new();
    let mut want: Vec<(String, String)> = Vec::new();
    for i in 0..vp::param(0, 3) {
        let n = if i == 0 { let k = vp::choice(3) as usize; vp::string_of(k, b"aB-_ .1/") } else { ["a", "b", ""][vp::choice(3) as usize].to_string() };
        match vp::choice(3) {
            0 => {
                let ok = !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') && !want.iter().any(|w| w.0 == n);
                vp::check(s.add_context(n.clone(), vec![format!("r{i}")]).is_ok() == ok, "a context is added exactly when its name is valid and new");
                if ok { want.push((n, format!("r{i}"))); vp::cover("added"); }
            }
            1 => {
                let p = want.iter().position(|w| w.0 == n);
                vp::check(s.remove_context(&n).is_ok() == p.is_some(), "only a context that is there is removed");
                if let Some(p) = p { want.remove(p); vp::cover("removed"); }
            }
            _ => {
                let there = want.iter().any(|w| w.0 == n);
                vp::check(s.alias_tool(&n, "t", "x").is_ok() == there && s.hide_tool(&n, "x").is_ok() == there, "tools change only in a context that is there");
            }
        }
        vp::check(s.len() == want.len() && s.is_empty() == want.is_empty() && s.context_names().len() == want.len(), "as many contexts as added");
        vp::check(s.contexts().iter().zip(&want).all(|(c, w)| c.name == w.0 && c.requests == vec![w.1.clone()]), "contexts keep their order and requests");
        for w in &want { vp::check(s.get_context(&w.0).is_some_and(|c| c.requests[0] == w.1), "a context is found by name"); }
    }
}
const ODD: &[u8] = b"a\"'\\\n#{: -~";
/// Saving and loading.
#[no_mangle]
pub extern "C" fn h_suite_io() {
    vp::hash_mode(1);
    let d = vp::scratch();
    let p = format!("{d}/s");
    let m = mode();
    let mut s = Suite::new().with_conflict_mode(m.clone());
    let t = || { let k = vp::choice(vp::param(0, 2) as u8 + 1) as usize; vp::string_of(k, ODD) };
    let (mut de, mut rq, mut al, mut to, mut hi, mut pr) = (None, "maya-2024".to_string(), "t".to_string(), "x".to_string(), "h".to_string(), None);
    match vp::choice(6) { 0 => de = Some(t()), 1 => rq = t(), 2 => al = t(), 3 => to = t(), 4 => hi = t(), _ => pr = Some(t()) }
    s.description = de;
    s.add_context("a", vec![rq, "b".to_string()]).unwrap();
    s.add_context("null", vec![]).unwrap();
    let more = vp::choice(vp::param(1, 5) as u8);
    if more == 1 { s.add_context("1", vec!["c".to_string()]).unwrap(); }
    s.alias_tool("a", al, to).unwrap();
    s.alias_tool("a", "u", "y").unwrap();
    s.hide_tool("null", &hi).unwrap();
    let c = s.get_context_mut("a").unwrap();
    c.prefix = pr; c.priority = [0, 0, -1, 7, 0][more as usize]; c.disabled = more == 3;
    let over = more == 4;
    if over { let mut o = Suite::new().with_description("older and longer ------------------------------------------------------------"); o.add_context("z", vec!["zz".to_string(); 9]).unwrap(); o.save(&p).unwrap(); }
    s.save(&p).unwrap();
    vp::check(Suite::is_suite(&p) && s.path.as_deref() == Some(std::path::Path::new(&p)), "a saved suite is one");
    match Suite::load(&p) {
        Err(e) => { vp::show!("{e}"); vp::check(false, "a saved suite loads") }
        Ok(l) => {
            vp::show!("{l:?}");
            vp::check(l.description == s.description && l.conflict_mode == s.conflict_mode && l.len() == s.len(), "the suite is as saved");
            for (x, y) in s.contexts().iter().zip(l.contexts()) {
                vp::check(x.name == y.name && x.requests == y.requests && x.tool_aliases == y.tool_aliases && x.hidden_tools == y.hidden_tools && x.prefix == y.prefix && x.priority == y.priority && x.disabled == y.disabled, "a context is as saved");
            }
            vp::cover("same");
        }
    }
}
/// Finding suites in the search paths.
#[no_mangle]
pub extern "C" fn h_suite_find() {
    let d = vp::scratch();
    vp::fs_order(vp::choice(2) as u64);
    let (p, q) = (format!("{d}/p"), format!("{d}/q"));
    let mut want = Vec::new();
    let mut first = [None, None];
    for (i, r) in [&p, &q].iter().enumerate() {
        if i == 0 && vp::choice(4) == 0 { continue; }
        std::fs::create_dir(r).unwrap();
        for (j, n) in ["s", "t"].iter().enumerate() {
            match vp::choice(4) {
                0 => {}
                1 => std::fs::create_dir(format!("{r}/{n}")).unwrap(),
                2 => std::fs::write(format!("{r}/{n}"), "x").unwrap(),
                _ => {
                    let mut s = Suite::new().with_description(*r);
                    s.add_context("c", vec![]).unwrap();
                    s.save(format!("{r}/{n}")).unwrap();
                    want.push(std::path::PathBuf::from(format!("{r}/{n}")));
                    if first[j].is_none() { first[j] = Some(r.to_string()); }
                }
            }
        }
    }
    let mut m = SuiteManager::new();
    m.add_path(&p); m.add_path(&q);
    let mut f = m.find_suites();
    vp::check(!f.iter().any(|x| x.starts_with(&p)) || f.iter().rposition(|x| x.starts_with(&p)) < f.iter().position(|x| x.starts_with(&q)) || !f.iter().any(|x| x.starts_with(&q)), "suites come in path order");
    f.sort();
    vp::show!("{f:?} {want:?}");
    vp::check(f == want, "exactly the suites are found");
    for (j, n) in ["s", "t"].iter().enumerate() {
        match m.load_suite(n) {
            Ok(s) => { vp::check(s.description == first[j], "the first path wins"); vp::cover("loaded") }
            Err(_) => { vp::check(first[j].is_none(), "a suite that is there is loaded"); vp::cover("missing") }
        }
    }
}
vp::harnesses!(h_suite_tools, h_suite_contexts, h_suite_io, h_suite_find);
