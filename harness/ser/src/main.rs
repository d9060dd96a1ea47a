//! Package definitions: writing and reading back.
use rez_next_package::serialization::{PackageFormat, PackageSerializer as S, SerializationOptions as O};
use rez_next_package::serialization::types::PackageContainer;
use rez_next_package::Package;
use rez_next_version::Version;
const ODD: &[u8] = b"a\"'\\\n#{: -";
fn text(n: usize, set: &[u8]) -> String { let k = vp::choice(n as u8 + 1) as usize; vp::string_of(k, set) }
fn same(a: &Package, b: &Package) -> bool {
    a.name == b.name && a.version.as_ref().map(|v| v.as_str()) == b.version.as_ref().map(|v| v.as_str()) && a.description == b.description
        && a.authors == b.authors && a.requires == b.requires && a.build_requires == b.build_requires && a.private_build_requires == b.private_build_requires
        && a.variants == b.variants && a.tools == b.tools && a.commands == b.commands && a.pre_commands == b.pre_commands && a.post_commands == b.post_commands
        && a.pre_build_commands == b.pre_build_commands && a.pre_test_commands == b.pre_test_commands && a.build_command == b.build_command && a.build_system == b.build_system
        && a.help == b.help && a.uuid == b.uuid && a.requires_rez_version == b.requires_rez_version
}
/// The ways of writing: format and whether pretty or with metadata.
fn write(p: &Package, way: u8) -> (String, PackageFormat) {
    let fm = match way { 0 => PackageFormat::Python, 1 | 2 | 3 => PackageFormat::Yaml, _ => PackageFormat::Json };
    let s = match way {
        0 | 1 | 4 => S::save_to_string(p, fm).unwrap(),
        _ => {
            let mut o = O::minimal();
            if way == 2 || way == 5 { o.pretty_print = true; } else { o.include_metadata = true; }
            S::save_container_to_string(&PackageContainer::new(p.clone(), "x".to_string()), fm, &o).unwrap()
        }
    };
    (s, fm)
}
fn back(p: &Package, way: u8) {
    let (s, fm) = write(p, way);
    vp::show!("{s}");
    match S::load_from_string(&s, fm) {
        Ok(q) => { vp::show!("{q:?}"); vp::check(same(p, &q), "a written definition reads back the same"); vp::cover("same") }
        Err(e) => { vp::show!("{e:?}"); vp::check(false, "a written definition is readable") }
    }
}
/// Any text in any field survives.
#[no_mangle]
pub extern "C" fn h_ser_text() {
    let way = vp::choice(7);
    let set: &[u8] = if vp::param(2, 0) > 0 { b"a\"'\\\n#{: -\t\r\0\x7f1~|>&%@" } else { ODD };
    let mut p = Package::new("pkg".to_string());
    p.version = Some(Version::parse("1.2").unwrap());
    let t = text(vp::param(0, 2) as usize, set);
    match vp::choice(vp::param(1, 3) as u8) {
        0 => p.description = Some(t), 1 => p.authors = vec![t, "b".to_string()], 2 => p.commands = Some(t),
        3 => p.tools = vec!["x".to_string(), t], 4 => p.help = Some(t), 5 => p.build_command = Some(t), 6 => p.pre_commands = Some(t), 7 => p.post_commands = Some(t),
        8 => p.uuid = Some(t), 9 => p.build_system = Some(t), 10 => p.pre_build_commands = Some(t), 11 => p.pre_test_commands = Some(t), _ => p.requires_rez_version = Some(t),
    }
    back(&p, way);
}
/// Any arrangement of the fields survives.
#[no_mangle]
pub extern "C" fn h_ser_fields() {
    let way = vp::choice(7);
    let mut p = Package::new("pkg".to_string());
    let req = |i: usize| ["a", "bb-1", "cc>=1,<2", "~d-1.2+<3", "!e", "f==1"][i].to_string();
    let list = |k: u8| -> Vec<String> { (0..k as usize).map(req).collect() };
    match vp::choice(5) {
        4 => { p.name = ["pkg", "my_pkg", "a-b", "1a"][vp::choice(4) as usize].to_string(); if vp::flag() { p.version = Some(Version::parse(&vp::shaped(["n", "n.n", "n.n.n", "nan", "n-n"][vp::choice(5) as usize])).unwrap()); } }
        0 => { p.requires = list(vp::choice(7)); p.description = Some("x\n\ny".to_string()); }
        1 => { p.build_requires = list(vp::choice(3)); p.private_build_requires = list(vp::choice(3)); p.commands = Some("env.A = \"1\"\nenv.B = '2'\n".to_string()); }
        2 => { p.authors = list(vp::choice(3)); p.tools = list(vp::choice(3)); p.post_commands = Some("- a\n- b".to_string()); }
        _ => { let n = vp::choice(4); p.variants = (0..n).map(|_| list(vp::choice(4))).collect(); p.requires = list(1); }
    }
    back(&p, way);
}
/// Files: what is saved with the default options loads again.
#[no_mangle]
pub extern "C" fn h_ser_file() {
    let d = vp::scratch();
    let k = vp::choice(3) as usize;
    let f = format!("{d}/{}", ["package.py", "package.yaml", "package.json"][k]);
    let fm = [PackageFormat::Python, PackageFormat::Yaml, PackageFormat::Json][k];
    let mut p = Package::new("pkg".to_string());
    if vp::flag() { p.version = Some(Version::parse(&vp::shaped("n.n")).unwrap()); }
    p.description = Some(text(2, ODD));
    p.variants = vec![vec!["a".to_string(), "b-1".to_string()], vec!["c".to_string()]];
    S::save_to_file(&p, std::path::Path::new(&f), fm).unwrap();
    match S::load_from_file(std::path::Path::new(&f)) {
        Ok(q) => { vp::check(same(&p, &q), "a saved definition loads the same"); vp::cover("same") }
        Err(e) => { vp::show!("{e:?}"); vp::check(false, "a saved definition loads") }
    }
}
/// Versions that are numbers are never dropped silently.
#[no_mangle]
pub extern "C" fn h_ser_version() {
    let q = vp::choice(3);
    let v = if q == 0 { ["1", "1.0", "2.10", "1.2.3", "1e1", "0x1", "1_0"][vp::choice(7) as usize].to_string() } else { vp::shaped(["n", "n.n", "n.n.n", "nan", "n.nn"][vp::choice(5) as usize]) };
    let yaml = vp::flag();
    vp::assume(yaml || q != 1);
    let t = match (yaml, q) { (true, 0) => v.clone(), (true, 1) => format!("'{v}'"), (_, 2) => "null".to_string(), _ => format!("\"{v}\"") };
    let s = if yaml { format!("name: x\nversion: {t}\n") } else { format!("{{\"name\": \"x\", \"version\": {t}}}") };
    let s2 = if !yaml && q == 0 && vp::flag() { format!("{{\"name\": \"x\", \"version\": {v}}}") } else { s };
    vp::show!("{s2}");
    match S::load_from_string(&s2, if yaml { PackageFormat::Yaml } else { PackageFormat::Json }) {
        Ok(p) => { vp::check(p.version.as_ref().map(|v| v.as_str()) == if q == 2 { None } else { Some(&v) }, "the version is the one written"); vp::cover("read") }
        Err(_) => { vp::check(q != 2 && !s2.contains(&format!("\"{v}\"")) && !s2.contains(&format!("'{v}'")), "a quoted version is accepted"); vp::cover("refused") }
    }
}
mod py;
use py::*;
vp::harnesses!(h_ser_text, h_ser_fields, h_ser_file, h_ser_version, h_py_string, h_py_format, h_py_int, h_py_bool, h_py_names, h_py_lists, h_py_commands);
