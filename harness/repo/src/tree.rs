//! Snapshots of a directory tree.
use std::fs;
use std::path::Path;
#[derive(Clone, PartialEq, Debug)]
pub enum Nd { Dir, File(Vec<u8>), Link(String) }
/// (path relative to the root, what is there), sorted by path.
pub type Tree = Vec<(String, Nd)>;
pub fn snap(root: &str) -> Tree {
    let mut v = Vec::new();
    walk(Path::new(root), "", &mut v);
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn walk(p: &Path, rel: &str, v: &mut Tree) {
    let Ok(rd) = fs::read_dir(p) else { return };
    for e in rd {
        let e = e.unwrap();
        let n = e.file_name().into_string().unwrap();
        let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
        let t = e.file_type().unwrap();
        if t.is_symlink() { v.push((r, Nd::Link(fs::read_link(e.path()).unwrap().to_string_lossy().into_owned()))); }
        else if t.is_dir() { v.push((r.clone(), Nd::Dir)); walk(&e.path(), &r, v); }
        else { v.push((r, Nd::File(fs::read(e.path()).unwrap()))); }
    }
}
fn under(p: &str, at: &str) -> bool { p == at || (p.len() > at.len() && p.starts_with(at) && p.as_bytes()[at.len()] == b'/') }
/// The part of the tree below `at` (relative to it).
pub fn sub(t: &Tree, at: &str) -> Tree { t.iter().filter(|e| under(&e.0, at)).map(|e| (e.0[at.len()..].to_string(), e.1.clone())).collect() }
/// The tree without what lies at or below `at`.
pub fn without(t: &Tree, at: &str) -> Tree { t.iter().filter(|e| !under(&e.0, at)).cloned().collect() }
pub fn has(t: &Tree, at: &str) -> bool { t.iter().any(|e| e.0 == at) }
/// The tree plus the directory `at` (and nothing if it is there).
pub fn plus_dir(t: &Tree, at: &str) -> Tree { let mut t = t.clone(); if !has(&t, at) { t.push((at.to_string(), Nd::Dir)); t.sort_by(|a, b| a.0.cmp(&b.0)); } t }
