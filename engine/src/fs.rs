//! An in-memory file system behind the libc calls std::fs makes. File names are concrete (symbolic
//! bytes in a path are enumerated); file contents may be symbolic.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::BTreeMap;
use std::sync::Arc;

type W<'a> = &'a mut Worker;
type S<'a> = &'a mut State;
fn fl<T>(r: Result<T, Fault>) -> R<T> { r.map_err(|f| End::Error(format!("memory fault at {:#x}", f.0))) }
#[derive(Clone)]
pub enum Kind { Dir(BTreeMap<Vec<u8>, usize>), File(Arc<Vec<Val>>), Link(Vec<u8>) }
#[derive(Clone)]
pub struct Node { kind: Kind, mode: u32, mtime: u64, nlink: u32 }
#[derive(Clone)]
struct Fd { ino: usize, pos: u64, flags: u64 }
#[derive(Clone)]
struct Dirp { ptr: u64, buf: u64, ino: usize, names: Vec<Vec<u8>>, i: usize, fd: usize }
#[derive(Clone)]
pub struct Fs { nodes: Vec<Node>, fds: Vec<Option<Fd>>, dirs: Vec<Dirp>, order: u64, fault: Option<(u64, u64, bool)>, nmut: u64, clock: u64 }
impl Default for Fs {
    fn default() -> Fs {
        let d = || Node { kind: Kind::Dir(BTreeMap::new()), mode: 0o755, mtime: 0, nlink: 1 };
        let mut f = Fs { nodes: vec![d(), d(), d()], fds: vec![None; 16], dirs: vec![], order: 0, fault: None, nmut: 0, clock: 1_700_000_000 * NS };
        if let Kind::Dir(m) = &mut f.nodes[0].kind { m.insert(b"s".to_vec(), 1); m.insert(b"tmp".to_vec(), 2); }
        f
    }
}
const ENOENT: u64 = 2; const EIO: u64 = 5; const EBADF: u64 = 9; const EEXIST: u64 = 17; const ENOTDIR: u64 = 20; const EISDIR: u64 = 21; const EINVAL: u64 = 22; const ENOTEMPTY: u64 = 39; const ELOOP: u64 = 40;
const O_CREAT: u64 = 0x40; const O_EXCL: u64 = 0x80; const O_TRUNC: u64 = 0x200; const O_APPEND: u64 = 0x400; const O_DIRECTORY: u64 = 0x10000; const O_NOFOLLOW: u64 = 0x20000;
type E<T> = Result<T, u64>;
const NS: u64 = 1_000_000_000;
struct Loc { parent: usize, name: Vec<u8>, ino: Option<usize> }
impl Fs {
    fn mutate(&mut self) -> E<()> {
        let n = self.nmut;
        self.nmut += 1;
        self.clock += 1000;
        match self.fault { Some((k, e, sticky)) if n == k || (sticky && n > k) => Err(e), _ => Ok(()) }
    }
    fn dir(&self, i: usize) -> E<&BTreeMap<Vec<u8>, usize>> { match &self.nodes[i].kind { Kind::Dir(m) => Ok(m), _ => Err(ENOTDIR) } }
    fn dir_mut(&mut self, i: usize) -> E<&mut BTreeMap<Vec<u8>, usize>> { let c = self.clock; let n = &mut self.nodes[i]; n.mtime = c; match &mut n.kind { Kind::Dir(m) => Ok(m), _ => Err(ENOTDIR) } }
    fn parent(&self, i: usize) -> usize { for (k, n) in self.nodes.iter().enumerate() { if let Kind::Dir(m) = &n.kind { if m.values().any(|&c| c == i) { return k; } } } 0 }
    fn walk(&self, base: usize, path: &[u8], follow: bool, depth: u32) -> E<Loc> {
        if depth > 20 { return Err(ELOOP); }
        if path.is_empty() { return Err(ENOENT); }
        let mut cur = if path[0] == b'/' { 0 } else { base };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        let slash = path.last() == Some(&b'/');
        if comps.is_empty() { return Ok(Loc { parent: cur, name: vec![], ino: Some(cur) }); }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            let m = self.dir(cur)?;
            if *c == b".." { cur = self.parent(cur); if last { return Ok(Loc { parent: cur, name: vec![], ino: Some(cur) }); } continue; }
            if c.len() > 255 { return Err(36); }
            let ino = match m.get(*c) { Some(&x) => x, None => return if last { Ok(Loc { parent: cur, name: c.to_vec(), ino: None }) } else { Err(ENOENT) } };
            if let Kind::Link(t) = &self.nodes[ino].kind {
                if !last || follow || slash {
                    let l = self.walk(cur, t, true, depth + 1)?;
                    if last { return Ok(l); }
                    cur = l.ino.ok_or(ENOENT)?;
                    continue;
                }
            }
            if last {
                if slash { self.dir(ino)?; }
                return Ok(Loc { parent: cur, name: c.to_vec(), ino: Some(ino) });
            }
            cur = ino;
        }
        unreachable!()
    }
    fn add(&mut self, n: Node) -> usize { self.nodes.push(n); self.nodes.len() - 1 }
    fn newfd(&mut self, fd: Fd) -> u64 {
        for i in 3..self.fds.len() { if self.fds[i].is_none() { self.fds[i] = Some(fd); return i as u64; } }
        self.fds.push(Some(fd));
        self.fds.len() as u64 - 1
    }
    fn fd(&self, fd: u64) -> E<&Fd> { self.fds.get(fd as usize).and_then(|x| x.as_ref()).ok_or(EBADF) }
    fn base(&self, fd: u64) -> E<usize> { if fd as u32 as i32 == -100 { Ok(0) } else { Ok(self.fd(fd as u32 as u64)?.ino) } }
    fn open(&mut self, base: usize, path: &[u8], flags: u64, mode: u32) -> E<u64> {
        let l = self.walk(base, path, flags & O_NOFOLLOW == 0 && !(flags & O_CREAT != 0 && flags & O_EXCL != 0), 0)?;
        let ino = match l.ino {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return Err(EEXIST); }
                match &self.nodes[i].kind {
                    Kind::Link(_) => return Err(if flags & O_DIRECTORY != 0 { ENOTDIR } else { ELOOP }),
                    Kind::Dir(_) => if flags & 3 != 0 || flags & O_CREAT != 0 { return Err(EISDIR); },
                    Kind::File(_) => {
                        if flags & O_DIRECTORY != 0 { return Err(ENOTDIR); }
                        if flags & O_TRUNC != 0 { self.mutate()?; let c = self.clock; self.nodes[i].kind = Kind::File(Arc::new(vec![])); self.nodes[i].mtime = c; }
                    }
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 { return Err(ENOENT); }
                self.mutate()?;
                let c = self.clock;
                let i = self.add(Node { kind: Kind::File(Arc::new(vec![])), mode: mode & 0o777 & !0o022, mtime: c, nlink: 1 });
                self.dir_mut(l.parent)?.insert(l.name, i);
                i
            }
        };
        Ok(self.newfd(Fd { ino, pos: 0, flags }))
    }
    fn mkdir(&mut self, path: &[u8]) -> E<()> {
        let l = self.walk(0, path, false, 0)?;
        if l.ino.is_some() { return Err(EEXIST); }
        self.mutate()?;
        let c = self.clock;
        let i = self.add(Node { kind: Kind::Dir(BTreeMap::new()), mode: 0o755, mtime: c, nlink: 1 });
        self.dir_mut(l.parent)?.insert(l.name, i);
        Ok(())
    }
    fn unlink(&mut self, base: usize, path: &[u8], rmdir: bool) -> E<()> {
        let l = self.walk(base, path, false, 0)?;
        let i = l.ino.ok_or(ENOENT)?;
        if l.name.is_empty() { return Err(if rmdir { EINVAL } else { EISDIR }); }
        match (&self.nodes[i].kind, rmdir) { (Kind::Dir(m), true) => if !m.is_empty() { return Err(ENOTEMPTY); }, (Kind::Dir(_), false) => return Err(EISDIR), (_, true) => return Err(ENOTDIR), _ => {} }
        self.mutate()?;
        self.dir_mut(l.parent)?.remove(&l.name);
        Ok(())
    }
    fn inside(&self, root: usize, x: usize) -> bool { let mut c = x; loop { if c == root { return true; } if c == 0 { return false; } c = self.parent(c); } }
    fn rename(&mut self, a: &[u8], b: &[u8]) -> E<()> {
        let (l, m) = (self.walk(0, a, false, 0)?, self.walk(0, b, false, 0)?);
        let i = l.ino.ok_or(ENOENT)?;
        if l.name.is_empty() || m.name.is_empty() { return Err(16); }
        if m.ino == Some(i) { return Ok(()); }
        let isdir = matches!(self.nodes[i].kind, Kind::Dir(_));
        if isdir && self.inside(i, m.parent) { return Err(EINVAL); }
        if let Some(j) = m.ino {
            match (&self.nodes[j].kind, isdir) { (Kind::Dir(x), true) => if !x.is_empty() { return Err(ENOTEMPTY); }, (Kind::Dir(_), false) => return Err(EISDIR), (_, true) => return Err(ENOTDIR), _ => {} }
        }
        self.mutate()?;
        self.dir_mut(l.parent)?.remove(&l.name);
        self.dir_mut(m.parent)?.insert(m.name, i);
        Ok(())
    }
    fn file(&self, i: usize) -> E<&Arc<Vec<Val>>> { match &self.nodes[i].kind { Kind::File(d) => Ok(d), Kind::Dir(_) => Err(EISDIR), _ => Err(EINVAL) } }
    fn put(&mut self, fd: u64, data: Vec<Val>) -> E<u64> {
        let f = self.fd(fd)?.clone();
        if f.flags & 3 == 0 { return Err(EBADF); }
        self.mutate()?;
        let c = self.clock;
        let n = data.len() as u64;
        let node = &mut self.nodes[f.ino];
        node.mtime = c;
        let pos = match &mut node.kind {
            Kind::File(d) => {
                let d = Arc::make_mut(d);
                let p = if f.flags & O_APPEND != 0 { d.len() } else { f.pos as usize };
                if d.len() < p + data.len() { d.resize(p + data.len(), Val::I(0)); }
                for (k, v) in data.into_iter().enumerate() { d[p + k] = v; }
                p
            }
            _ => return Err(EISDIR),
        };
        self.fds[fd as usize].as_mut().unwrap().pos = pos as u64 + n;
        Ok(n)
    }
    fn take(&mut self, fd: u64, n: u64, at: Option<u64>) -> E<Vec<Val>> {
        let f = self.fd(fd)?.clone();
        if f.flags & 3 == 1 { return Err(EBADF); }
        let p = at.unwrap_or(f.pos);
        let d = self.file(f.ino)?;
        let end = (p + n).min(d.len() as u64).max(p.min(d.len() as u64));
        let v: Vec<Val> = if p >= d.len() as u64 { vec![] } else { d[p as usize..end as usize].to_vec() };
        if at.is_none() { self.fds[fd as usize].as_mut().unwrap().pos = p + v.len() as u64; }
        Ok(v)
    }
}
fn fsm<'a>(st: &'a mut State) -> &'a mut Fs { Arc::make_mut(&mut st.fs) }
fn path(w: W, st: S, p: &Val) -> R<Vec<u8>> {
    let p = w.cu64(st, p)?;
    let mut v = Vec::new();
    loop { let b = fl(st.mem.byte(p + v.len() as u64))?; let b = w.cu64(st, &b)? as u8; if b == 0 { return Ok(v); } v.push(b); }
}
fn ret(st: S, c: &CallI, r: E<u64>) -> R<Val> {
    match r { Ok(v) => Ok(Val::I(v)), Err(e) => { fl(st.mem.store_u64(ERRNO_ADDR, 4, e))?; Ok(vconst(u128::MAX, c.ret.bits())) } }
}
fn retp(st: S, r: E<u64>) -> R<Val> { match r { Ok(v) => Ok(Val::I(v)), Err(e) => { fl(st.mem.store_u64(ERRNO_ADDR, 4, e))?; Ok(Val::I(0)) } } }
fn unit(r: E<()>) -> E<u64> { r.map(|_| 0) }
fn f_open(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let p = path(w, st, &a[0])?; let (fl, m) = (w.cu64(st, &a[1])?, match a.get(2) { Some(m) => w.cu64(st, m)? as u32, None => 0 }); let r = fsm(st).open(0, &p, fl, m); ret(st, c, r) }
fn f_openat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p, fl) = (w.cu64(st, &a[0])?, path(w, st, &a[1])?, w.cu64(st, &a[2])?);
    let m = match a.get(3) { Some(m) => w.cu64(st, m)? as u32, None => 0 };
    let r = match st.fs.base(fd) { Ok(b) => fsm(st).open(b, &p, fl, m), Err(e) => Err(e) };
    ret(st, c, r)
}
fn f_close(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let fd = w.cu64(st, &a[0])? as u32 as usize;
    let r = if st.fs.fds.get(fd).is_some_and(|x| x.is_some()) { fsm(st).fds[fd] = None; Ok(0) } else if fd < 3 { Ok(0) } else { Err(EBADF) };
    ret(st, c, r)
}
fn f_read(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p, n) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let at = match a.get(3) { Some(o) => Some(w.cu64(st, o)?), None => None };
    match fsm(st).take(fd, n, at) {
        Ok(v) => { for (i, x) in v.iter().enumerate() { fl(st.mem.store(p + i as u64, 1, 8, x))?; } Ok(Val::I(v.len() as u64)) }
        Err(e) => ret(st, c, Err(e)),
    }
}
fn f_write(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p, n) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    if fd == 1 || fd == 2 { return Ok(Val::I(n)); }
    let d = fl(st.mem.bytes(p, n))?;
    let r = fsm(st).put(fd, d);
    ret(st, c, r)
}
fn f_writev(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p, n) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let mut d = Vec::new();
    for i in 0..n { let (b, l) = (st.mem.load_u64(p + 16 * i, 8), st.mem.load_u64(p + 16 * i + 8, 8)); match (b, l) { (Some(b), Some(l)) => d.extend(fl(st.mem.bytes(b, l))?), _ => return er("writev") } }
    if fd == 1 || fd == 2 { return Ok(Val::I(d.len() as u64)); }
    let r = fsm(st).put(fd, d);
    ret(st, c, r)
}
fn f_lseek(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, o, wh) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])? as i64, w.cu64(st, &a[2])?);
    let r = (|| { let f = st.fs.fd(fd)?; let len = st.fs.file(f.ino)?.len() as i64; let b = match wh as u32 { 0 => 0, 1 => f.pos as i64, 2 => len, _ => return Err(EINVAL) }; if b + o < 0 { return Err(EINVAL); } Ok((b + o) as u64) })();
    if let Ok(p) = r { fsm(st).fds[fd as usize].as_mut().unwrap().pos = p; }
    ret(st, c, r)
}
fn put_stat(st: S, p: u64, ino: usize) -> R<()> {
    let n = &st.fs.nodes[ino];
    let (ty, sz) = match &n.kind { Kind::Dir(_) => (0o040000, 4096), Kind::File(d) => (0o100000, d.len() as u64), Kind::Link(t) => (0o120000, t.len() as u64) };
    let (mode, mt, nl) = (n.mode | ty, n.mtime, n.nlink);
    fl(st.mem.fill(p, 144, &Val::I(0)))?;
    for (o, k, v) in [(0u64, 8usize, 1u64), (8, 8, ino as u64 + 2), (16, 8, nl as u64), (24, 4, mode as u64), (48, 8, sz), (56, 8, 4096), (64, 8, (sz + 511) / 512), (72, 8, mt / NS), (80, 8, mt % NS), (88, 8, mt / NS), (96, 8, mt % NS), (104, 8, mt / NS), (112, 8, mt % NS)] { fl(st.mem.store_u64(p + o, k, v))?; }
    Ok(())
}
fn stat_path(w: W, st: S, c: &CallI, base: usize, p: &[u8], out: &Val, follow: bool) -> R<Val> {
    let out = w.cu64(st, out)?;
    match st.fs.walk(base, p, follow, 0).and_then(|l| l.ino.ok_or(ENOENT)) { Ok(i) => { put_stat(st, out, i)?; Ok(Val::I(0)) } Err(e) => ret(st, c, Err(e)) }
}
fn f_stat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let p = path(w, st, &a[0])?; stat_path(w, st, c, 0, &p, &a[1], true) }
fn f_lstat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let p = path(w, st, &a[0])?; stat_path(w, st, c, 0, &p, &a[1], false) }
fn f_fstat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, out) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?);
    match st.fs.fd(fd).map(|f| f.ino) { Ok(i) => { put_stat(st, out, i)?; Ok(Val::I(0)) } Err(e) => ret(st, c, Err(e)) }
}
fn f_fstatat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p, fl) = (w.cu64(st, &a[0])?, path(w, st, &a[1])?, w.cu64(st, &a[3])?);
    match st.fs.base(fd) {
        Ok(b) if p.is_empty() && fl & 0x1000 != 0 => { let out = w.cu64(st, &a[2])?; put_stat(st, out, b)?; Ok(Val::I(0)) }
        Ok(b) => stat_path(w, st, c, b, &p, &a[2], fl & 0x100 == 0),
        Err(e) => ret(st, c, Err(e)),
    }
}
fn f_futimens(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?);
    let (v, n) = (fl(st.mem.load(p + 16, 8, 64))?, fl(st.mem.load(p + 24, 8, 64))?);
    let (sec, ns) = (w.cu64(st, &v)?, w.cu64(st, &n)?);
    let r = st.fs.fd(fd).map(|f| f.ino);
    if let Ok(i) = r { if ns < NS { fsm(st).nodes[i].mtime = sec * NS + ns; } else if ns == 0x3fff_ffff { let t = st.fs.clock; fsm(st).nodes[i].mtime = t; } }
    ret(st, c, r.map(|_| 0))
}
fn f_mkdir(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let p = path(w, st, &a[0])?; let r = unit(fsm(st).mkdir(&p)); ret(st, c, r) }
fn f_rmdir(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let p = path(w, st, &a[0])?; let r = unit(fsm(st).unlink(0, &p, true)); ret(st, c, r) }
fn f_unlink(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let p = path(w, st, &a[0])?; let r = unit(fsm(st).unlink(0, &p, false)); ret(st, c, r) }
fn f_unlinkat(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, p, fl) = (w.cu64(st, &a[0])?, path(w, st, &a[1])?, w.cu64(st, &a[2])?);
    let r = match st.fs.base(fd) { Ok(b) => unit(fsm(st).unlink(b, &p, fl & 0x200 != 0)), Err(e) => Err(e) };
    ret(st, c, r)
}
fn f_rename(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> { let (p, q) = (path(w, st, &a[0])?, path(w, st, &a[1])?); let r = unit(fsm(st).rename(&p, &q)); ret(st, c, r) }
fn f_symlink(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (t, p) = (path(w, st, &a[0])?, path(w, st, &a[1])?);
    let f = fsm(st);
    let r = (|| { let l = f.walk(0, &p, false, 0)?; if l.ino.is_some() { return Err(EEXIST); } f.mutate()?; let c = f.clock; let i = f.add(Node { kind: Kind::Link(t), mode: 0o777, mtime: c, nlink: 1 }); f.dir_mut(l.parent)?.insert(l.name, i); Ok(0) })();
    ret(st, c, r)
}
fn f_link(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (p, q) = if a.len() == 2 { (path(w, st, &a[0])?, path(w, st, &a[1])?) } else { (path(w, st, &a[1])?, path(w, st, &a[3])?) };
    let f = fsm(st);
    let r = (|| { let i = f.walk(0, &p, false, 0)?.ino.ok_or(ENOENT)?; if matches!(f.nodes[i].kind, Kind::Dir(_)) { return Err(1); } let l = f.walk(0, &q, false, 0)?; if l.ino.is_some() { return Err(EEXIST); } f.mutate()?; f.nodes[i].nlink += 1; f.dir_mut(l.parent)?.insert(l.name, i); Ok(0) })();
    ret(st, c, r)
}
fn f_readlink(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (p, b, n) = (path(w, st, &a[0])?, w.cu64(st, &a[1])?, w.cu64(st, &a[2])?);
    let r = st.fs.walk(0, &p, false, 0).and_then(|l| l.ino.ok_or(ENOENT)).and_then(|i| match &st.fs.nodes[i].kind { Kind::Link(t) => Ok(t.clone()), _ => Err(EINVAL) });
    match r { Ok(t) => { let k = t.len().min(n as usize); fl(st.mem.write(b, &t[..k]))?; Ok(Val::I(k as u64)) } Err(e) => ret(st, c, Err(e)) }
}
fn open_dir(st: S, ino: usize, fd: usize) -> R<Val> {
    let mut names: Vec<Vec<u8>> = match st.fs.dir(ino) { Ok(m) => m.keys().cloned().collect(), Err(e) => return retp(st, Err(e)) };
    if st.fs.order == 1 { names.reverse(); }
    let (ptr, buf) = (st.malloc(16, 16)?, st.malloc(280, 16)?);
    fsm(st).dirs.push(Dirp { ptr, buf, ino, names, i: 0, fd });
    Ok(Val::I(ptr))
}
fn f_opendir(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = path(w, st, &a[0])?;
    match fsm(st).open(0, &p, O_DIRECTORY, 0) { Ok(fd) => { let i = st.fs.fd(fd).unwrap().ino; open_dir(st, i, fd as usize) } Err(e) => retp(st, Err(e)) }
}
fn f_fdopendir(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let fd = w.cu64(st, &a[0])? as u32 as u64;
    match st.fs.fd(fd).map(|f| f.ino) { Ok(i) => open_dir(st, i, fd as usize), Err(e) => retp(st, Err(e)) }
}
fn f_readdir(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[0])?;
    let Some(k) = st.fs.dirs.iter().position(|d| d.ptr == p) else { return er("readdir of an unknown DIR") };
    let f = fsm(st);
    loop {
        let i = f.dirs[k].i;
        if i >= f.dirs[k].names.len() { return Ok(Val::I(0)); }
        f.dirs[k].i += 1;
        let name = f.dirs[k].names[i].clone();
        let ino = match f.dir(f.dirs[k].ino).ok().and_then(|m| m.get(&name)) { Some(&x) => x, None => continue };
        let ty = match &f.nodes[ino].kind { Kind::Dir(_) => 4u8, Kind::File(_) => 8, Kind::Link(_) => 10 };
        let b = f.dirs[k].buf;
        fl(st.mem.store_u64(b, 8, ino as u64 + 2))?;
        fl(st.mem.store_u64(b + 8, 8, i as u64 + 1))?;
        fl(st.mem.store_u64(b + 16, 2, 280))?;
        fl(st.mem.store_u64(b + 18, 1, ty as u64))?;
        fl(st.mem.write(b + 19, &name))?;
        fl(st.mem.store_u64(b + 19 + name.len() as u64, 1, 0))?;
        return Ok(Val::I(b));
    }
}
fn f_closedir(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[0])?;
    let Some(k) = st.fs.dirs.iter().position(|d| d.ptr == p) else { return er("closedir of an unknown DIR") };
    let f = fsm(st);
    let d = f.dirs.remove(k);
    f.fds[d.fd] = None;
    st.mfree(d.ptr)?;
    st.mfree(d.buf)?;
    Ok(Val::I(0))
}
fn f_dirfd(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = w.cu64(st, &a[0])?;
    match st.fs.dirs.iter().find(|d| d.ptr == p) { Some(d) => Ok(Val::I(d.fd as u64)), None => er("dirfd") }
}
fn f_chmod(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (p, m) = (path(w, st, &a[0])?, w.cu64(st, &a[1])? as u32);
    let r = st.fs.walk(0, &p, true, 0).and_then(|l| l.ino.ok_or(ENOENT)).map(|i| { fsm(st).nodes[i].mode = m & 0o7777; 0 });
    ret(st, c, r)
}
fn f_fchmod(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, m) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])? as u32);
    let r = st.fs.fd(fd).map(|f| f.ino).map(|i| { fsm(st).nodes[i].mode = m & 0o7777; 0 });
    ret(st, c, r)
}
fn f_ftruncate(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let (fd, n) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?);
    let f = fsm(st);
    let r = (|| { let i = f.fd(fd)?.ino; f.file(i)?; f.mutate()?; if let Kind::File(d) = &mut f.nodes[i].kind { Arc::make_mut(d).resize(n as usize, Val::I(0)); } Ok(0) })();
    ret(st, c, r)
}
fn f_copy_range(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    // copy_file_range(in, off_in, out, off_out, len, flags), offsets null
    let (i, oi, o, oo, n) = (w.cu64(st, &a[0])? as u32 as u64, w.cu64(st, &a[1])?, w.cu64(st, &a[2])? as u32 as u64, w.cu64(st, &a[3])?, w.cu64(st, &a[4])?);
    if oi != 0 || oo != 0 { return er("copy_file_range with offsets"); }
    let f = fsm(st);
    let r = (|| { let pos = f.fd(i)?.pos; let v = f.take(i, n.min(1 << 30), None)?; if v.is_empty() { return Ok(0); } match f.put(o, v) { Ok(k) => Ok(k), Err(e) => { f.fds[i as usize].as_mut().unwrap().pos = pos; Err(e) } } })();
    ret(st, c, r)
}
fn f_realpath(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let p = path(w, st, &a[0])?;
    let r = st.fs.walk(0, &p, true, 0).and_then(|l| l.ino.ok_or(ENOENT));
    match r {
        Ok(i) => {
            let mut comps: Vec<Vec<u8>> = Vec::new();
            let mut cur = i;
            while cur != 0 { let up = st.fs.parent(cur); let n = st.fs.dir(up).unwrap().iter().find(|(_, v)| **v == cur).unwrap().0.clone(); comps.push(n); cur = up; }
            comps.reverse();
            let mut s: Vec<u8> = Vec::new();
            for c in comps { s.push(b'/'); s.extend(c); }
            if s.is_empty() { s.push(b'/'); }
            s.push(0);
            let m = st.malloc(s.len() as u64, 16)?;
            fl(st.mem.write(m, &s))?;
            Ok(Val::I(m))
        }
        Err(e) => retp(st, Err(e)),
    }
}
fn f_access(w: W, st: S, c: &CallI, a: &[Val]) -> R<Val> {
    let p = path(w, st, &a[0])?;
    let r = st.fs.walk(0, &p, true, 0).and_then(|l| l.ino.ok_or(ENOENT)).map(|_| 0);
    ret(st, c, r)
}
fn ok0(_: W, _: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(Val::I(0)) }
fn eio(_: W, st: S, c: &CallI, _: &[Val]) -> R<Val> { ret(st, c, Err(EIO)) }
fn einval(_: W, st: S, c: &CallI, _: &[Val]) -> R<Val> { ret(st, c, Err(EINVAL)) }
fn vp_fault(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> {
    let (k, e, s) = (w.cu64(st, &a[0])?, w.cu64(st, &a[1])?, w.cu64(st, &a[2])? & 1);
    let f = fsm(st);
    f.nmut = 0;
    f.fault = if k == u64::MAX { None } else { Some((k, e, s == 1)) };
    Ok(Val::I(0))
}
fn vp_ops(_: W, st: S, _: &CallI, _: &[Val]) -> R<Val> { Ok(Val::I(st.fs.nmut)) }
fn vp_order(w: W, st: S, _: &CallI, a: &[Val]) -> R<Val> { let k = w.cu64(st, &a[0])?; fsm(st).order = k; Ok(Val::I(0)) }
pub fn lookup(name: &str) -> Option<ExtFn> {
    Some(match name {
        "__vp_fs_fault" => vp_fault, "__vp_fs_ops" => vp_ops, "__vp_fs_order" => vp_order,
        "open" | "open64" => f_open, "openat" | "openat64" => f_openat, "close" => f_close, "read" | "pread64" | "pread" => f_read, "write" => f_write, "writev" => f_writev, "lseek" | "lseek64" => f_lseek,
        "stat" | "stat64" => f_stat, "lstat" | "lstat64" => f_lstat, "fstat" | "fstat64" => f_fstat, "fstatat64" | "fstatat" => f_fstatat,
        "mkdir" => f_mkdir, "rmdir" => f_rmdir, "unlink" => f_unlink, "unlinkat" => f_unlinkat, "rename" => f_rename, "symlink" => f_symlink, "link" | "linkat" => f_link, "readlink" => f_readlink,
        "opendir" => f_opendir, "fdopendir" => f_fdopendir, "readdir64" | "readdir" => f_readdir, "closedir" => f_closedir, "dirfd" => f_dirfd,
        "chmod" => f_chmod, "fchmod" => f_fchmod, "ftruncate64" | "ftruncate" => f_ftruncate, "copy_file_range" => f_copy_range, "realpath" => f_realpath, "access" => f_access,
        "fsync" | "fdatasync" | "flock" | "utimensat" | "fchown" | "poll" => ok0,
        "sendfile64" | "sendfile" | "splice" | "ioctl" => einval,
        "futimens" => f_futimens,
        "fcntl" | "fcntl64" => ok0,
        "mmap64" | "dl_iterate_phdr" if false => eio,
        _ => return None,
    })
}
