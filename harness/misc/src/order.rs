//! Package orderers.
use rez_next_package::package_order::*;
use rez_next_package::Package;
use rez_next_version::Version;
use std::collections::HashMap;
fn mk(i: usize, two: bool, ts: bool) -> Package {
    let mut p = Package::new(if two && vp::flag() { "bb".to_string() } else { "a".to_string() });
    if vp::choice(3) > 0 { p.version = Some(Version::parse(&vp::shaped("n")).unwrap()); }
    if ts && vp::flag() { let c = vp::byte(); vp::assume(c < 8); p.timestamp = Some(c as i64); }
    p.description = Some(i.to_string());
    p
}
fn id(p: &Package) -> usize { p.description.as_ref().unwrap().as_bytes()[0] as usize - b'0' as usize }
fn ver(p: &Package) -> Option<u8> { p.version.as_ref().map(|v| v.as_str().as_bytes()[0]) }
fn ids(v: &[Package]) -> Vec<usize> { v.iter().map(id).collect() }
/// `le(x, y)`: x may stand before y; stable where both directions hold.
fn sorted(v: &[Package], le: &dyn Fn(&Package, &Package) -> bool) -> bool {
    v.windows(2).all(|w| le(&w[0], &w[1]) && (!le(&w[1], &w[0]) || id(&w[0]) < id(&w[1])))
}
fn order(k: u8, c: u8) -> Box<dyn PackageOrder> {
    match k {
        0 => Box::new(SortedOrder::new(false, None)), 1 => Box::new(SortedOrder::new(true, None)),
        2 => Box::new(VersionSplitPackageOrder::new(Version::parse(&(c as char).to_string()).unwrap(), None)),
        3 => Box::new(TimestampPackageOrder::new((c - b'0') as i64, 0, None)), _ => Box::new(NullPackageOrder::new(None)),
    }
}
fn check(k: u8, c: u8, v: &[Package]) {
    let t = |p: &Package| p.timestamp.unwrap_or(0);
    let asc = |x: &Package, y: &Package| match (ver(x), ver(y)) { (Some(a), Some(b)) => a <= b, (None, Some(_)) => false, _ => true };
    match k {
        0 => vp::check(sorted(v, &asc), "ascending versions, unversioned last"),
        1 => vp::check(sorted(v, &|x, y| match (ver(x), ver(y)) { (Some(a), Some(b)) => a >= b, (None, Some(_)) => false, _ => true }), "descending versions, unversioned last"),
        2 => { let first = |p: &Package| ver(p).is_some_and(|v| v <= c); vp::check(sorted(v, &|x, y| if first(x) != first(y) { first(x) } else { asc(x, y) }), "versions up to the split point come first") }
        3 => { let before = |p: &Package| t(p) <= (c - b'0') as i64; vp::check(sorted(v, &|x, y| if before(x) != before(y) { before(x) } else { t(x) >= t(y) }), "packages up to the timestamp come first, newest first") }
        _ => vp::check(sorted(v, &|_, _| true), "no order keeps the order"),
    }
}
#[no_mangle]
pub extern "C" fn h_ord_one() {
    let k = vp::choice(5);
    let c = { let c = vp::byte(); vp::assume(c >= b'1' && c <= b'6'); c };
    let o = order(k, c);
    let v: Vec<Package> = (0..vp::param(0, 3) as usize).map(|i| mk(i, false, k == 3)).collect();
    let r = o.reorder(&v).unwrap_or(v.clone());
    vp::show!("{o:?} of {:?} -> {:?}", v.iter().map(|p| (&p.version, p.timestamp)).collect::<Vec<_>>(), ids(&r));
    let mut s = ids(&r);
    s.sort();
    vp::check(s == (0..v.len()).collect::<Vec<_>>(), "no package is lost or doubled");
    check(k, c, &r);
    let back = from_pod(&o.to_pod());
    vp::check(back.is_some(), "a stored orderer reads back");
    vp::check(ids(&back.unwrap().reorder(&v).unwrap_or(v.clone())) == ids(&r), "and orders the same");
    vp::cover("ordered");
}
#[no_mangle]
pub extern "C" fn h_ord_family() {
    vp::hash_mode(1000 + vp::choice(vp::param(1, 3) as u8) as u64);
    let k = vp::choice(5);
    let d = if vp::param(2, 0) > 0 { vp::choice(6) } else { (k + 1 + vp::choice(2)) % 6 };
    let c = b'4';
    let build = || {
        let mut m: HashMap<String, Box<dyn PackageOrder>> = HashMap::new();
        m.insert("a".to_string(), order(k, c));
        PerFamilyOrder::new(m, if d == 5 { None } else { Some(order(d, c)) })
    };
    let o = build();
    let v: Vec<Package> = (0..vp::param(0, 3) as usize).map(|i| mk(i, true, k == 3 || d == 3)).collect();
    let r = o.reorder(&v).unwrap();
    vp::show!("{o:?} of {:?} -> {:?}", v.iter().map(|p| (&p.name, &p.version, p.timestamp)).collect::<Vec<_>>(), ids(&r));
    let mut s = ids(&r);
    s.sort();
    vp::check(s == (0..v.len()).collect::<Vec<_>>(), "no package is lost or doubled");
    let of = |n: &str| -> Vec<Package> { r.iter().filter(|p| p.name == n).cloned().collect() };
    check(k, c, &of("a"));
    check(if d == 5 { 4 } else { d }, c, &of("bb"));
    vp::check(ids(&o.clone_box().reorder(&v).unwrap()) == ids(&r), "a copy orders the same");
    let list = PackageOrderList { orderers: vec![Box::new(o)] };
    let back = PackageOrderList::from_pod(&list.to_pod());
    vp::check(back.orderers.len() == 1, "a stored orderer reads back");
    vp::check(ids(&back.orderers[0].reorder(&v).unwrap()) == ids(&r), "and orders the same");
    vp::hash_mode(1000 + vp::param(1, 3));
    vp::check(ids(&build().reorder(&v).unwrap()) == ids(&r), "the order does not depend on hashing");
    vp::cover("ordered");
}
/// The first orderer that covers a package is used.
#[no_mangle]
pub extern "C" fn h_ord_list() {
    let mut l = PackageOrderList::new();
    let n = vp::choice(4);
    let mut want = 4usize;
    for i in 0..n {
        let fam = vp::choice(4);
        let p = match fam { 0 => None, 1 => Some(vec!["a".to_string()]), 2 => Some(vec!["bb".to_string(), "a".to_string()]), _ => Some(vec!["bb".to_string()]) };
        if fam != 3 && want == 4 { want = i as usize; }
        l.append(match i { 0 => Box::new(SortedOrder::new(true, p)), 1 => Box::new(TimestampPackageOrder::new(3, 0, p)), _ => Box::new(VersionSplitPackageOrder::new(Version::parse("2").unwrap(), p)) });
    }
    for l in [&l, &PackageOrderList::from_pod(&l.to_pod())] {
        let g = get_orderer("a", Some(l));
        vp::check(g.name() == ["sorted", "soft_timestamp", "version_split", "", "no_order"][want], "the first orderer that covers a package is used");
    }
    vp::cover("found");
}
