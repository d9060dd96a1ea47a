//! package.py: values and commands are what Python makes of them, or the file is refused.
use rez_next_package::python_ast_parser::PythonAstParser;
use rez_next_package::Package;
use rez_next_rex::RexExecutor;
use std::collections::HashMap;
/// A value as Python has it.
#[derive(Clone, PartialEq, Debug)]
enum V { S(String), I(i64), B(bool), N, F(&'static str, f64) }
type E = (String, Option<V>); // source text, value (None: Python raises, or we do not say)
fn truth(v: &V) -> bool { match v { V::S(s) => !s.is_empty(), V::I(i) => *i != 0, V::B(b) => *b, V::N => false, V::F(_, f) => *f != 0.0 } }
fn text(v: &V) -> String { match v { V::S(s) => s.clone(), V::I(i) => i.to_string(), V::B(b) => if *b { "True".into() } else { "False".into() }, V::N => "None".into(), V::F(s, _) => s.to_string() } }
fn lit(s: &str) -> String { format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n")) }
fn str_leaf() -> E { let s = vp::string_upto(0, 1, b"aB{"); (lit(&s), Some(V::S(s))) }
fn int_leaf() -> E {
    match vp::choice(3) { 0 => { let d = digit(); (format!("{d}"), Some(V::I(d as i64))) } 1 => ("9223372036854775807".into(), Some(V::I(i64::MAX))), _ => { let d = digit(); (format!("-{d}"), Some(V::I(-(d as i64)))) } }
}
fn small() -> E { let d = digit(); (format!("{d}"), Some(V::I(d as i64))) }
fn i(e: &E) -> Option<i64> { if let Some(V::I(i)) = e.1 { Some(i) } else { None } }
fn s(e: &E) -> Option<String> { if let Some(V::S(s)) = &e.1 { Some(s.clone()) } else { None } }
fn bool_leaf() -> E { if vp::flag() { ("True".into(), Some(V::B(true))) } else { ("False".into(), Some(V::B(false))) } }
fn int_expr(d: u8) -> E {
    if d == 0 { return int_leaf(); }
    let (a, b) = (int_expr(d - 1), int_leaf());
    let (o, v) = match vp::choice(4) {
        0 => ("+", i(&a).zip(i(&b)).and_then(|(x, y)| x.checked_add(y))), 1 => ("-", i(&a).zip(i(&b)).and_then(|(x, y)| x.checked_sub(y))), 2 => ("*", i(&a).zip(i(&b)).and_then(|(x, y)| x.checked_mul(y))),
        _ => return (format!("-({})", a.0), i(&a).and_then(|x| x.checked_neg()).map(V::I)),
    };
    (format!("({}) {o} ({})", a.0, b.0), v.map(V::I))
}
fn cmp(k: u8, x: i64, y: i64) -> bool { match k { 0 => x == y, 1 => x < y, _ => x > y } }
fn bool_expr(d: u8) -> E {
    match vp::choice(if d == 0 { 1 } else { 6 }) {
        0 => bool_leaf(),
        1 => { let (a, b, k) = (int_leaf(), small(), vp::choice(3)); (format!("({}) {} ({})", a.0, ["==", "<", ">"][k as usize], b.0), i(&a).zip(i(&b)).map(|(x, y)| V::B(cmp(k, x, y)))) }
        2 => { let (a, b, c, k, l) = (small(), small(), small(), vp::choice(3), vp::choice(3)); (format!("{} {} {} {} {}", a.0, ["==", "<", ">"][k as usize], b.0, ["==", "<", ">"][l as usize], c.0), Some(V::B(cmp(k, i(&a).unwrap(), i(&b).unwrap()) && cmp(l, i(&b).unwrap(), i(&c).unwrap())))) }
        3 => { let (a, b, k) = (str_leaf(), str_leaf(), vp::flag()); let eq = s(&a) == s(&b); (format!("{} {} {}", a.0, if k { "==" } else { "!=" }, b.0), Some(V::B(eq == k))) }
        4 => { let a = bool_expr(d - 1); (format!("not ({})", a.0), a.1.map(|v| V::B(!truth(&v)))) }
        _ => join(bool_expr(d - 1), bool_leaf()),
    }
}
fn join(a: E, b: E) -> E {
    let and = vp::flag();
    let v = a.1.and_then(|x| if truth(&x) == and { b.1 } else { Some(x) });
    (format!("({}) {} ({})", a.0, if and { "and" } else { "or" }, b.0), v)
}
/// `'..'.format(..)` with numbered fields.
fn format() -> E {
    let (t, fields): (&str, &[usize]) = [("{0}", &[0][..]), ("<{1}{0}>", &[1, 0]), ("{{{0}}}{0}", &[0, 0]), ("{0}{1}", &[0, 1]), ("{{0}}{1}", &[1]), ("{2}", &[2]), ("a{}b{}", &[0, 1]), ("{x}", &[9]), ("}{0}", &[9])][vp::choice(9) as usize];
    let any = |k: u8| match k { 0 => { let s = vp::string_upto(0, 3, b"a{1}"); (lit(&s), Some(V::S(s))) } 1 => small(), 2 => bool_leaf(), _ => ("1.0".to_string(), Some(V::F("1.0", 1.0))) };
    let (a, b) = (any(vp::choice(4)), any(vp::choice(2)));
    let args = [text(a.1.as_ref().unwrap()), text(b.1.as_ref().unwrap())];
    let v = if fields.iter().any(|f| *f > 1) { None } else {
        let mut r = String::new();
        let mut c = t.chars().peekable();
        let mut f = fields.iter();
        while let Some(x) = c.next() {
            if (x == '{' || x == '}') && c.peek() == Some(&x) { c.next(); r.push(x); }
            else if x == '{' { while c.next() != Some('}') {} r += &args[*f.next().unwrap()]; }
            else { r.push(x); }
        }
        Some(V::S(r))
    };
    (format!("'{t}'.format({}, {})", a.0, b.0), v)
}
fn str_expr(d: u8) -> E {
    match vp::choice(if d == 0 { 1 } else { 7 }) {
        0 => str_leaf(),
        1 => { let (a, b) = (str_expr(d - 1), str_leaf()); (format!("({}) + {}", a.0, b.0), s(&a).zip(s(&b)).map(|(x, y)| V::S(x + &y))) }
        2 => { let (a, b) = (str_leaf(), int_leaf()); let v = match (s(&a), i(&b)) { (Some(x), Some(y)) if y < 100 || x.is_empty() => Some(V::S(x.repeat(y.clamp(0, 100) as usize))), _ => None }; (format!("{} * {}", a.0, b.0), v) }
        3 => { let (a, b, c) = (str_expr(d - 1), bool_expr(d - 1), str_leaf()); let v = match b.1 { Some(v) => if truth(&v) { a.1 } else { c.1 }, None => None }; (format!("({}) if ({}) else ({})", a.0, b.0, c.0), v) }
        4 => { let a = str_expr(d - 1); let v = s(&a).map(|x| V::S(x.to_lowercase())); (format!("({}).lower()", a.0), v) }
        5 => join(str_leaf(), str_expr(d - 1)),
        _ => join(if vp::flag() { ("None".into(), Some(V::N)) } else { small() }, str_leaf()),
    }
}
fn read(src: &str) -> Option<Package> {
    vp::show!("{src}");
    let r = PythonAstParser::parse_package_py(src);
    vp::show!("{:?}", r.as_ref().map(|p| (&p.description, p.format_version, p.relocatable)));
    if r.is_ok() { vp::cover("read"); } else { vp::cover("refused"); }
    r.ok()
}
fn check_string(e: &E) {
    if let Some(p) = read(&format!("name = 'p'\ndescription = {}\n", e.0)) {
        vp::check(e.1.as_ref().is_some_and(|v| p.description.as_deref() == Some(&text(v))), "a string is what Python computes, or refused");
    } else { vp::check(e.1.is_none() || e.1 == Some(V::N), "a supported string expression is read"); }
}
#[no_mangle]
pub extern "C" fn h_py_string() { check_string(&str_expr(vp::param(0, 1) as u8)) }
#[no_mangle]
pub extern "C" fn h_py_format() { check_string(&format()) }
#[no_mangle]
pub extern "C" fn h_py_int() {
    let e = int_expr(vp::param(0, 1) as u8);
    if vp::flag() { check_string(&e); return; }
    let p = read(&format!("name = 'p'\nformat_version = {}\n", e.0));
    match (p, i(&e)) {
        (Some(p), Some(v)) => vp::check(p.format_version.map(|x| x as i64) == Some(v), "a number is what Python computes, or refused"),
        (Some(_), None) => vp::check(false, "a number that does not fit is refused"),
        (None, v) => vp::check(v.is_none_or(|v| i32::try_from(v).is_err()), "a number that fits is read"),
    }
}
#[no_mangle]
pub extern "C" fn h_py_bool() {
    let e = bool_expr(vp::param(0, 1) as u8);
    let p = read(&format!("name = 'p'\nif {}:\n    description = 'yes'\nelif True:\n    description = 'no'\nrelocatable = {}\n", e.0, e.0));
    match (p, e.1) {
        (Some(p), Some(v)) => { vp::check(p.relocatable == Some(truth(&v)), "a truth value is what Python computes"); vp::check(p.description.as_deref() == Some(if truth(&v) { "yes" } else { "no" }), "the branch Python takes is taken") }
        (Some(_), None) => vp::check(false, "a failing condition is refused"),
        (None, v) => vp::check(v.is_none(), "a supported condition is read"),
    }
}
/// Statements: names hold what was last assigned to them.
#[no_mangle]
pub extern "C" fn h_py_names() {
    let mut env: HashMap<&str, String> = HashMap::new();
    let mut src = String::from("name = 'p'\n");
    let names = ["description", "x", "uuid"];
    let mut bad = false;
    for _ in 0..vp::param(0, 2) {
        let n = names[vp::choice(3) as usize];
        let (t, v) = match vp::choice(3) {
            0 => { let v = vp::string_of(1, b"ab"); (lit(&v), Some(v)) }
            1 => { let m = names[vp::choice(3) as usize]; (m.to_string(), env.get(m).cloned()) }
            _ => { let m = names[vp::choice(3) as usize]; (format!("{m} + 'c'"), env.get(m).map(|v| format!("{v}c"))) }
        };
        let Some(v) = v else { src += &format!("{n} = {t}\n"); bad = true; break };
        match vp::choice(5) {
            0 | 1 => { src += &format!("{n} = {t}\n"); env.insert(n, v); }
            2 => { let m = names[vp::choice(3) as usize]; src += &format!("{n} = {m} = {t}\n"); env.insert(n, v.clone()); env.insert(m, v); }
            3 => { let k = vp::flag(); src += &format!("if {}:\n    {n} = {t}\n", if k { "True" } else { "False" }); if k { env.insert(n, v); } }
            _ => { src += &format!("{n}, x = {t}, 'q'\n"); if n != "x" { env.insert(n, v); } env.insert("x", "q".into()); bad = true; }
        }
    }
    src += "help = 'h'\n";
    match read(&src) {
        Some(p) => {
            vp::check(p.description.as_ref() == env.get("description") && p.uuid.as_ref() == env.get("uuid"), "a field holds what was last assigned to it");
        }
        None => vp::check(bad, "supported statements are read"),
    }
}
/// Lists of requirements, variants and tests.
#[no_mangle]
pub extern "C" fn h_py_lists() {
    let (a, b, c) = (vp::string_of(1, b"ab"), vp::string_of(1, b"ab"), vp::shaped("w-n"));
    let mut src = String::from("name = 'p'\n");
    let (t, want): (String, Vec<String>) = match vp::choice(6) {
        0 => (format!("['{a}', '{c}']"), vec![a.clone(), c.clone()]), 1 => (format!("('{a}', '{b}', '{c}')"), vec![a.clone(), b.clone(), c.clone()]), 2 => (format!("['{a}'] + ['{b}', '{c}']"), vec![a.clone(), b.clone(), c.clone()]),
        3 => ("[]".into(), vec![]), 4 => (format!("['{a}' '{b}', '{c}' if '{a}' == '{b}' else '{b}']"), vec![format!("{a}{b}"), if a == b { c.clone() } else { b.clone() }]), _ => (format!("base + ['{b}']"), vec![c.clone(), b.clone()]),
    };
    if t.starts_with("base") { src = format!("name = 'p'\nbase = ['{c}']\n").replace("base =", "other =") ; }
    let t = t.replace("base", "other");
    let field = vp::choice(5);
    src += &match field { 0 => format!("requires = {t}\n"), 1 => format!("build_requires = {t}\n"), 2 => format!("private_build_requires = {t}\n"), 3 => format!("tools = {t}\n"), _ => format!("variants = [{t}, ['{a}']]\n") };
    if vp::flag() { src += &format!("tests = {{'{a}': '{c}', 'z': '{b}'}}\n"); } else { src += "tests = {}\n"; }
    let tests = src.contains("'z'");
    let Some(p) = read(&src) else { vp::check(false, "supported lists are read"); return };
    match field {
        0 => vp::check(p.requires == want, "the list Python computes"), 1 => vp::check(p.build_requires == want, "the list Python computes"), 2 => vp::check(p.private_build_requires == want, "the list Python computes"),
        3 => vp::check(p.tools == want, "the list Python computes"), _ => vp::check(p.variants == vec![want.clone(), vec![a.clone()]], "the variants Python computes"),
    }
    if field != 0 { vp::check(p.requires.is_empty(), "no requirement invented"); }
    vp::check(if tests { p.tests.len() == 2 && p.tests.get(&a) == Some(&c) && p.tests.get("z") == Some(&b) } else { p.tests.is_empty() }, "the tests that are written");
}

// ---------------------------------------------------------------- commands
#[no_mangle]
pub extern "C" fn h_py_commands() {
    let mut want: HashMap<String, String> = HashMap::new();
    let mut alias: HashMap<String, String> = HashMap::new();
    let mut odd = false;
    let mut hard = false;
    let mut body = String::new();
    {
        let p = PythonAstParser::parse_package_py("name = 'p'\ndef commands():\n    env.A = 'x'\n    env.A.append('y')\n").unwrap();
        let _ = RexExecutor::new().execute_commands(&(p.commands.unwrap() + "\nprependenv('A', 'b')\nalias('a', 'b')\nunsetenv('x')\nsource('x')\nsetenv('A', 'x\"')"), "p", None, None);
    }
    for k in 0..vp::param(0, 2) {
        if odd || hard { break; }
        let v = if k > 0 { "w".to_string() } else { match vp::choice(4) {
            0 => vp::string_upto(0, vp::param(1, 2) as usize, b"a'\"\n) \\#"),
            1 => { let q = vp::string_of(1, b"'\""); format!("x{q})\nsetenv({q}INJ{q}, {q}y") }
            2 => { let q = vp::string_of(1, b"'\""); format!("x{q}, {q}y") }
            _ => "a b/c:d".to_string(),
        } };
        let quoted = v.contains(['\'', '"', '\n']);
        odd |= quoted;
        let var = ["AA", "B"][vp::choice(2) as usize];
        let t = lit(&v);
        let old = want.get(var).cloned();
        let (line, new) = match if k > 0 { [0, 4, 6, 8, 10, 11][vp::choice(6) as usize] } else { vp::choice(17) } {
            0 => (format!("env.{var} = {t}"), Some(v)), 1 => (format!("env.{var}.set({t})"), Some(v)), 2 => (format!("setenv('{var}', {t})"), Some(v)), 3 => (format!("env.setenv('{var}', {t})"), Some(v)),
            4 => (format!("env.{var}.append({t})"), Some(match &old { Some(o) if !o.is_empty() => format!("{o}:{v}"), _ => v })), 5 => (format!("appendenv('{var}', {t})"), Some(match &old { Some(o) if !o.is_empty() => format!("{o}:{v}"), _ => v })),
            6 => (format!("env.{var}.prepend({t})"), Some(match &old { Some(o) if !o.is_empty() => format!("{v}:{o}"), _ => v })), 7 => (format!("prependenv('{var}', {t})"), Some(match &old { Some(o) if !o.is_empty() => format!("{v}:{o}"), _ => v })),
            8 => (format!("unsetenv('{var}')"), None), 9 => (format!("if system.platform == 'linux':\n        env.{var} = {t}\n    else:\n        env.{var} = 'no'"), Some(v)),
            10 => { if !quoted { alias.insert("al".into(), v); } (format!("alias('al', {t})"), old) }
            11 => (format!("q = {t}\n    env.{var} = q"), Some(v)),
            12 => { hard = true; (format!("env['{var}'] = {t}"), Some(v)) }
            13 => { hard = true; (format!("env.{var} = [{t}]"), Some(v)) }
            14 => { hard = true; (format!("env.{var} = env.B = {t}"), Some(v)) }
            15 => { hard = true; (format!("env.{var} = unknown({t})"), Some(v)) }
            _ => { hard = true; (format!("env.{var}.x = {t}"), Some(v)) }
        };
        body += &format!("    {line}\n");
        match new { Some(v) => { want.insert(var.into(), v); } None => { want.remove(var); } }
        if line.contains("env.B = ") && hard { let v = want.get(var).cloned().unwrap(); want.insert("B".into(), v); }
    }
    let src = format!("name = 'p'\ndef commands():\n{body}");
    let p = read(&src);
    let Some(p) = p else { vp::check(odd || hard, "supported commands are read"); return };
    let cmds = p.commands.clone().unwrap_or_default();
    vp::show!("commands = {cmds:?}");
    let mut x = RexExecutor::new();
    match x.execute_commands(&cmds, "p", None, None) {
        Ok(env) => {
            vp::show!("{:?} {:?}", env.vars, env.aliases);
            vp::check(env.vars == want && env.aliases == alias, "the commands do what they say, or are refused");
            vp::cover("done");
        }
        Err(_) => vp::check(odd, "supported commands run"),
    }
}
fn digit() -> u8 { vp::string_of(1, b"0123").as_bytes()[0] - b'0' }
