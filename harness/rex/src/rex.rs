//! Rex: statements, their effect on an environment, expansion, generated scripts.
use crate::sh::*;
use rez_next_rex::parser::get_cached_parser;
use rez_next_rex::{generate_shell_script, RexActionType, RexEnvironment, RexExecutor, RexParser, ShellType};
/// Quoted argument text: printable ASCII without quotes.
fn arg(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { let c = vp::byte(); vp::assume(c >= b' ' && c < 0x7f && c != b'\'' && c != b'"'); s.push(c as char); }
    s
}
#[no_mangle]
pub extern "C" fn h_rex_statement() {
    use RexActionType::*;
    let parser = RexParser::new();
    let nv = vp::choice(vp::param(0, 2) as u8 + 1) as usize;
    let name = vp::shaped("Ww");
    let value = arg(nv);
    let deco = vp::choice(3);
    let q = if deco == 0 { '\'' } else { '"' };
    let gap = if deco == 1 { " " } else { "" };
    let k = vp::choice(20);
    let two = |f: &str| format!("{f}{gap}({gap}{q}{name}{q}{gap},{gap}{q}{value}{q}{gap})");
    let one = |f: &str, a: &str| format!("{f}{gap}({gap}{q}{a}{q}{gap})");
    let line = match k {
        0 => two("env.setenv"), 1 => two("setenv"), 2 => one("env.unsetenv", &name), 3 => one("unsetenv", &name), 4 => two("env.prepend_path"), 5 => two("prependenv"),
        6 => two("env.append_path"), 7 => two("appendenv"), 8 => two("env.setenv_if_empty"), 9 => two("alias"), 10 => two("env.alias"), 11 => one("command", &value), 12 => one("source", &value),
        13 => one("env.resetenv", &name), 14 => one("info", &value), 15 => one("error", &value), 16 => one("stop", &value), 17 => "stop()".to_string(), 18 => one("comment", &value), _ => format!("export {name}=\"{value}\""),
    };
    let text = if deco != 2 { line } else { format!("  {line}\n\n") };
    vp::show!("{text:?}");
    let r = parser.parse(&text);
    vp::check(r.is_ok(), "a supported statement is accepted");
    let r = r.unwrap();
    vp::check(r.len() == 1, "one statement is one action");
    let (nm, va) = (name.as_str(), value.as_str());
    let ok = match (&r[0].action_type, k) {
        (Setenv { name, value }, 0 | 1 | 19) => name == nm && value == va,
        (Unsetenv { name }, 2 | 3) => name == nm,
        (PrependPath { name, value, separator }, 4 | 5) => name == nm && value == va && separator.is_none(),
        (AppendPath { name, value, separator }, 6 | 7) => name == nm && value == va && separator.is_none(),
        (SetenvIfEmpty { name, value }, 8) => name == nm && value == va,
        (Alias { name, value }, 9 | 10) => name == nm && value == va,
        (Command { cmd }, 11) => cmd == va,
        (Source { path }, 12) => path == va,
        (Resetenv { name }, 13) => name == nm,
        (Info { message }, 14) => message == va,
        (Error { message }, 15) => message == va,
        (Stop { message }, 16) => message.as_deref() == Some(va),
        (Stop { message }, 17) => message.is_none(),
        (Comment { text }, 18) => text == va,
        _ => false,
    };
    vp::check(ok, "a statement means what it says");
    vp::cover("parsed");
}
/// Nothing is dropped: every non-blank line is an action or the whole text is refused.
#[no_mangle]
pub extern "C" fn h_rex_raw() {
    let parser = RexParser::new();
    let n = vp::choice(vp::param(0, 4) as u8 + 1) as usize;
    let tail = vp::string_of(n, b"a#/ \n'\"(),=");
    let head = ["", "stop(", "info('x'", "export A", "setenv('A', 'b'", "# x", "alias('a','b')"][vp::choice(7) as usize];
    let text = format!("{head}{tail}");
    vp::show!("{text:?}");
    let lines = text.split('\n').filter(|l| !l.trim().is_empty()).count();
    match parser.parse(&text) { Ok(a) => { vp::check(a.len() == lines, "every line is an action"); vp::cover("accepted") } Err(_) => vp::cover("rejected") }
}
/// Environment model: association lists.
#[derive(Default)]
struct Model { vars: Vec<(u8, Vec<u8>)>, alias: Vec<(u8, Vec<u8>)>, cmds: Vec<Vec<u8>>, srcs: Vec<Vec<u8>>, info: Vec<Vec<u8>>, stop: Option<Option<Vec<u8>>> }
fn get(m: &[(u8, Vec<u8>)], k: u8) -> Option<&Vec<u8>> { m.iter().find(|e| e.0 == k).map(|e| &e.1) }
fn put(m: &mut Vec<(u8, Vec<u8>)>, k: u8, v: Vec<u8>) { m.retain(|e| e.0 != k); m.push((k, v)); }
impl Model {
    fn step(&mut self, k: u8, n: u8, v: &[u8]) {
        if self.stop.is_some() { return; }
        let cur = get(&self.vars, n).cloned();
        match k {
            0 => put(&mut self.vars, n, v.to_vec()),
            1 => self.vars.retain(|e| e.0 != n),
            2 => { let mut w = v.to_vec(); if let Some(c) = cur { if !c.is_empty() { w.push(b':'); w.extend(c); } } put(&mut self.vars, n, w) }
            3 => { let w = match cur { Some(mut c) if !c.is_empty() => { c.push(b':'); c.extend(v); c } _ => v.to_vec() }; put(&mut self.vars, n, w) }
            4 => if cur.is_none() { put(&mut self.vars, n, v.to_vec()) },
            5 => put(&mut self.alias, n, v.to_vec()),
            6 => self.cmds.push(v.to_vec()),
            7 => self.srcs.push(v.to_vec()),
            8 => self.info.push(v.to_vec()),
            9 => self.stop = Some(Some(v.to_vec())),
            10 => {}
            _ => self.vars.retain(|e| e.0 != n),
        }
    }
}
fn bytes(v: &[String]) -> Vec<Vec<u8>> { v.iter().map(|s| s.as_bytes().to_vec()).collect() }
#[no_mangle]
pub extern "C" fn h_rex_env() {
    get_cached_parser();
    let n = vp::param(0, 3) as usize;
    let kinds = vp::param(1, 12) as u8;
    let mut m = Model::default();
    let mut text = String::new();
    for i in 0..n {
        let k = vp::choice(kinds);
        let nm = b'A' + if k == 6 || k == 7 || k == 8 || k == 9 || k == 10 { 0 } else { vp::choice(2) };
        let c = vp::byte();
        vp::assume(c >= b'a' && c <= b'z');
        let v = if i == 0 && vp::choice(2) == 1 { vec![] } else { vec![c] };
        m.step(k, nm, &v);
        let (nm, v) = (nm as char, String::from_utf8(v).unwrap());
        text += &match k {
            0 => format!("setenv('{nm}', '{v}')\n"), 1 => format!("unsetenv('{nm}')\n"), 2 => format!("prependenv('{nm}', '{v}')\n"), 3 => format!("appendenv('{nm}', '{v}')\n"), 4 => format!("env.setenv_if_empty('{nm}', '{v}')\n"),
            5 => format!("alias('{nm}', '{v}')\n"), 6 => format!("command('{v}')\n"), 7 => format!("source('{v}')\n"), 8 => format!("info('{v}')\n"), 9 => format!("stop('{v}')\n"), 10 => "# note\n".to_string(), _ => format!("resetenv('{nm}')\n"),
        };
    }
    vp::show!("{text:?}");
    let mut x = RexExecutor::new();
    let r = x.execute_commands(&text, "p", None, None);
    vp::check(r.is_ok(), "supported statements run");
    let e = r.unwrap();
    vp::show!("{e:?}");
    for k in [b'A', b'B'] {
        let key = (k as char).to_string();
        vp::check(e.vars.get(&key).map(|s| s.as_bytes()) == get(&m.vars, k).map(|v| &v[..]), "variables end up as the statements, in order, say");
        vp::check(e.aliases.get(&key).map(|s| s.as_bytes()) == get(&m.alias, k).map(|v| &v[..]), "aliases end up as the statements, in order, say");
    }
    vp::check(e.vars.len() == m.vars.len() && e.aliases.len() == m.alias.len(), "nothing else is set");
    vp::check(bytes(&e.startup_commands) == m.cmds && bytes(&e.sourced_scripts) == m.srcs && bytes(&e.info_messages) == m.info, "commands, sources and messages are kept in order");
    vp::check(e.stopped == m.stop.is_some() && e.stop_message.as_ref().map(|s| s.as_bytes().to_vec()) == m.stop.flatten(), "stop() ends the run and keeps its message");
    vp::cover(if e.stopped { "stopped" } else { "done" });
}
/// `{ref}` and `$REF` are replaced by their values, once, in every kind of statement, whatever the hash seed,
/// and `this` is the package being run, not the one run before.
#[no_mangle]
pub extern "C" fn h_rex_expand() {
    get_cached_parser();
    vp::hash_mode(1000 + vp::choice(vp::param(0, 6) as u8) as u64);
    let root = { let mut s = "/".to_string(); for _ in 0..vp::param(1, 2) { let c = vp::byte(); vp::assume(c > b' ' && c < 0x7f && c != b'\'' && c != b'"'); s.push(c as char); } if vp::choice(2) == 1 { s.push_str("{version}"); } s };
    let version = vp::shaped("n.n.n");
    let (r2, second) = (vp::choice(3), vp::choice(2) == 1);
    expand(&root, &version, r2, second, 0, vp::choice(2));
}
#[no_mangle]
pub extern "C" fn h_rex_kinds() {
    get_cached_parser();
    vp::hash_mode(1000);
    let c = vp::byte();
    vp::assume(c > b' ' && c < 0x7f && c != b'\'' && c != b'"');
    let version = vp::shaped(["n", "n.n", "n.n.n", "n.n.n.n", "aa.n"][vp::choice(5) as usize]);
    expand(&format!("/{}", c as char), &version, 0, vp::choice(2) == 1, vp::choice(2), vp::choice(10));
}
fn expand(root: &str, version: &str, r2: u8, second: bool, nover: u8, k: u8) {
    let name = "pkg";
    let v: Vec<&str> = version.split('.').collect();
    let nover = nover == 1;
    let part = |i: usize, r: &'static str| if nover { r } else { v.get(i).copied().unwrap_or(r) };
    let ver = |r: &'static str| if nover { r } else { version };
    let refs = [("{root}", root), ("{this.root}", root), ("{version}", if nover { "0.1" } else { version }), ("{this.version}", ver("{this.version}")), ("{this.version.major}", part(0, "{this.version.major}")), ("{this.version.minor}", part(1, "{this.version.minor}")), ("{this.version.patch}", part(2, "{this.version.patch}")), ("{name}", name), ("{this.name}", name),
        ("$ROOT", root), ("$VERSION", if nover { "0.1" } else { version }), ("$NAME", name), ("$THIS.VERSION.MAJOR", part(0, "$THIS.VERSION.MAJOR")), ("$THIS.VERSION", ver("$THIS.VERSION")), ("{other}", "{other}"), ("$OTHER", "$OTHER")];
    let (r, w) = refs[vp::choice(refs.len() as u8) as usize];
    // without a version of its own, what {version} alone means is the caller's business
    vp::assume(!nover || (r != "{version}" && r != "$VERSION"));
    let (r2, w2) = match r2 { 0 => ("", ""), 1 => refs[0], _ => refs[7] };
    let (text, want) = (format!("{r}/x:{r2}"), format!("{w}/x:{w2}"));
    vp::show!("kind {k} value {text:?} root {root:?} version {version:?} (given: {}) after another package: {second} -> expect {want:?}", !nover);
    let mut x = RexExecutor::new();
    if second { vp::check(x.execute_commands("setenv('Z', '{this.version.minor}')", "before", Some("/b"), Some("7.8.9")).is_ok(), "supported statements run"); }
    let st = ["setenv('A', '%')", "appendenv('A', '%')", "prependenv('A', '%')", "env.setenv_if_empty('A', '%')", "alias('A', '%')", "command('%')", "source('%')", "info('%')", "error('%')", "stop('%')"][k as usize];
    let res = x.execute_commands(&st.replace('%', &text), name, Some(root), if nover { None } else { Some(version) });
    vp::check(res.is_ok(), "supported statements run");
    let e = res.ok().unwrap();
    let got = match k { 0..=3 => e.vars.get("A").cloned(), 4 => e.aliases.get("A").cloned(), 5 => e.startup_commands.first().cloned(), 6 => e.sourced_scripts.first().cloned(), 7 => e.info_messages.first().cloned(), 8 => e.info_messages.first().and_then(|m| m.strip_prefix("[error] ").map(|s| s.to_string())), _ => e.stop_message.clone() };
    vp::show!("got {got:?}");
    vp::check(got.as_deref() == Some(&want[..]), "references are replaced by their values, exactly once");
    if second { vp::check(e.vars.get("Z").map(|s| &s[..]) == Some("8"), "the package before keeps its values"); }
    vp::cover(if second { "second package" } else { "only package" });
}
/// Text for a script value: any ASCII but NUL (and CR), without `$` where `$` is meant to expand.
fn val(n: usize, dollar: bool) -> String {
    let mut s = String::new();
    for _ in 0..n { let c = vp::byte(); vp::assume(c != 0 && c < 0x80 && c != b'\r' && (dollar || c != b'$')); s.push(c as char); }
    s
}
#[no_mangle]
pub extern "C" fn h_rex_shell() {
    vp::hash_mode(1000 + vp::choice(2) as u64);
    let (ty, sh) = match vp::choice(4) { 0 => (ShellType::Bash, Sh::Bash), 1 => (ShellType::Zsh, Sh::Bash), 2 => (ShellType::Fish, Sh::Fish), _ => (ShellType::PowerShell, Sh::Ps) };
    let n = vp::param(0, 3) as usize;
    let mut e = RexEnvironment::new();
    let what = vp::choice(4);
    let v = val(if what == 2 { n.max(1) } else { n }, what != 0 || sh == Sh::Ps);
    if what == 2 { vp::assume(!v.contains('$') || sh == Sh::Ps); }
    let mut want = vec![St::Var(b"AA".to_vec(), b"x".to_vec()), St::Var(b"B".to_vec(), if what == 0 { v.as_bytes().to_vec() } else { b"y".to_vec() })];
    e.vars.insert("B".into(), if what == 0 { v.clone() } else { "y".into() });
    e.vars.insert("AA".into(), "x".into());
    match what { 1 => { e.aliases.insert("al".into(), v.clone()); want.push(St::Alias(b"al".to_vec(), v.as_bytes().to_vec())) } 2 => { e.sourced_scripts.push(v.clone()); want.push(St::Source(v.as_bytes().to_vec())) } 3 => e.info_messages.push(v.clone()), _ => {} }
    let s = generate_shell_script(&e, &ty);
    vp::show!("{ty:?} value {v:?}\n{s}");
    let got = Rd::new(&s, sh).script();
    vp::check(got.is_some(), "the script is well formed and runs nothing hidden in a value");
    vp::check(got == Some(want), "the script sets exactly the environment's values");
    vp::cover(match sh { Sh::Bash => "bash", Sh::Fish => "fish", Sh::Ps => "powershell" });
}

/// Several variables, aliases, commands and sourced scripts: all of them, in order, none twice, also where a section is empty.
#[no_mangle]
pub extern "C" fn h_rex_sections() {
    vp::hash_mode(1000 + vp::choice(3) as u64);
    let (ty, sh) = match vp::choice(4) { 0 => (ShellType::Bash, Sh::Bash), 1 => (ShellType::Zsh, Sh::Bash), 2 => (ShellType::Fish, Sh::Fish), _ => (ShellType::PowerShell, Sh::Ps) };
    let ch = || { let c = vp::byte(); vp::assume(c > b' ' && c < 0x7f && c != b'$'); (c as char).to_string() };
    let mut e = RexEnvironment::new();
    let mut want = Vec::new();
    for n in &["AB", "C", "XYZ"][..vp::choice(3) as usize] { let c = ch(); want.push(St::Var(n.as_bytes().to_vec(), c.as_bytes().to_vec())); e.vars.insert(n.to_string(), c); }
    for n in &["al", "bal"][..vp::choice(3) as usize] { let c = ch(); want.push(St::Alias(n.as_bytes().to_vec(), c.as_bytes().to_vec())); e.aliases.insert(n.to_string(), c); }
    for n in &["/one", "/two"][..vp::choice(3) as usize] { let c = format!("{n}{}", ch()); want.push(St::Source(c.as_bytes().to_vec())); e.sourced_scripts.push(c); }
    for n in &["note", "more"][..vp::choice(3) as usize] { e.info_messages.push(n.to_string()); }
    let s = generate_shell_script(&e, &ty);
    vp::show!("{ty:?}\n{s}");
    vp::check(Rd::new(&s, sh).script() == Some(want), "the script sets exactly the environment's values");
    vp::cover(match sh { Sh::Bash => "bash", Sh::Fish => "fish", Sh::Ps => "powershell" });
}
/// Values containing the other kind of quote, or a comment mark: kept exactly, or the statement is refused.
#[no_mangle]
pub extern "C" fn h_rex_quotes() {
    use RexActionType::*;
    let parser = RexParser::new();
    let n = vp::param(0, 3) as usize;
    let q = if vp::choice(2) == 0 { '\'' } else { '"' };
    let value = vp::string_of(n, if q == '"' { b"a'\\# ,)" } else { b"a\"\\# ,)" });
    let k = vp::choice(6);
    let text = match k { 0 => format!("env.setenv({q}A{q}, {q}{value}{q})"), 1 => format!("prependenv({q}A{q}, {q}{value}{q})"), 2 => format!("alias({q}A{q}, {q}{value}{q})"), 3 => format!("command({q}{value}{q})"), 4 => format!("stop({q}{value}{q})"), _ => format!("env.A = {q}{value}{q}") };
    vp::show!("{text:?}");
    let r = parser.parse(&text);
    vp::show!("{r:?}");
    match r {
        Err(_) => vp::cover("refused"),
        Ok(a) => {
            vp::check(a.len() == 1, "one statement is one action");
            let va = value.as_str();
            let ok = match &a[0].action_type {
                Setenv { name, value } => name == "A" && value == va && (k == 0 || k == 5), PrependPath { name, value, .. } => name == "A" && value == va && k == 1, Alias { name, value } => name == "A" && value == va && k == 2,
                Command { cmd } => cmd == va && k == 3, Stop { message } => message.as_deref() == Some(va) && k == 4, _ => false,
            };
            vp::check(ok, "an accepted statement means what it says");
            vp::cover("kept");
        }
    }
}
