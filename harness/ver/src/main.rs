use rez_next_version::{Version, VersionRange};
use std::cmp::Ordering;
use vp::refver;
mod range;
use range::*;

const VCH: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_.-+";

/// Warm up lazily built regex automata on concrete text.
pub fn warm() {
    for s in ["1.2.3", "1.0-alpha_1+b", "x", "..", "a b", "1.2.3.4.5.6", " 1 ", "9_", "!", "0.1-2+3_4.Z"] {
        let _ = Version::parse(s);
    }
}
fn v(s: &str) -> Option<Version> { Version::parse(s).ok() }

// ---------------------------------------------------------------- C01 parsing
fn parse_check(s: &str) {
    vp::show!("text = {s:?}");
    let r = Version::parse(s);
    let t = refver::trim(s.as_bytes());
    let want = refver::valid(t);
    vp::check(r.is_ok() == want, "a version text is accepted exactly when it is well formed");
    if let Ok(v) = r {
        let keep: &[u8] = if t == b"epsilon" { b"" } else { t };
        vp::check(v.as_str().as_bytes() == keep, "an accepted version keeps its text");
        vp::check(v.to_string().as_bytes() == keep, "display prints the text");
        vp::check(v.len() == refver::tokens(keep).len(), "token count");
        vp::check(v.is_empty() == keep.is_empty(), "empty");
        vp::check(v.is_inf() == (keep == b"inf"), "inf");
        let again = Version::parse(v.as_str());
        match again {
            Ok(w) => {
                vp::check(w.as_str() == v.as_str(), "reparse keeps text");
                vp::check(w == v, "reparse is equal");
            }
            Err(_) => vp::check(false, "reparse succeeds"),
        }
        vp::observe(v.len() as u64);
        vp::cover("accepted");
    } else {
        vp::cover("rejected");
    }
}
/// Any ASCII text up to p0 bytes.
#[no_mangle]
pub extern "C" fn h_parse_ascii() {
    warm();
    let n = vp::choice(vp::param(0, 4) as u8 + 1) as usize;
    parse_check(&vp::ascii(n));
}
/// Version characters only, longer.
#[no_mangle]
pub extern "C" fn h_parse_chars() {
    warm();
    let n = vp::param(0, 5) as usize;
    parse_check(&vp::string_of(n, VCH));
}
/// Many tokens: k tokens, each one symbolic character, symbolic separators.
#[no_mangle]
pub extern "C" fn h_parse_long() {
    warm();
    let k = 4 + vp::choice(vp::param(0, 8) as u8) as usize;
    let mut s = String::new();
    let alnum: &[u8] = b"07az";
    for i in 0..k {
        if i > 0 { s.push(b".-+"[i % 3] as char); }
        let c = vp::byte_of(alnum);
        s.push(c as char);
    }
    parse_check(&s);
}
/// Reserved and over-long tokens, one character free.
#[no_mangle]
pub extern "C" fn h_parse_words() {
    warm();
    let w = ["not", "version", "inf", "epsilon", "abcdefghij", "abcdefghijk", "abcdefghijkl", "1.not", "1.version.2", "abcdefghijk1", "v1", "1_"][vp::choice(12) as usize];
    let mut b = w.as_bytes().to_vec();
    let i = vp::choice(b.len() as u8) as usize;
    if vp::flag() { b[i] = vp::byte_of(VCH); } else { b.insert(i, vp::byte_of(VCH)); }
    parse_check(std::str::from_utf8(&b).unwrap());
}
/// Text with one arbitrary non-ASCII two-byte character never yields a version.
#[no_mangle]
pub extern "C" fn h_parse_utf8() {
    warm();
    let pre = vp::choice(3) as usize;
    let post = vp::choice(3) as usize;
    let mut b = Vec::new();
    for _ in 0..pre { b.push(vp::byte_of(VCH)); }
    let hi = vp::byte();
    let lo = vp::byte();
    vp::assume(hi >= 0xc2 && hi <= 0xdf && lo >= 0x80 && lo <= 0xbf);
    // U+0085 and U+00A0 are white space: trimming them at the ends is fine
    vp::assume(!(hi == 0xc2 && (lo == 0x85 || lo == 0xa0)));
    b.push(hi);
    b.push(lo);
    for _ in 0..post { b.push(vp::byte_of(VCH)); }
    let s = unsafe { String::from_utf8_unchecked(b) };
    vp::show!("text = {s:?}");
    vp::check(Version::parse(&s).is_err(), "non-ASCII text is rejected");
    vp::check(VersionRange::parse(&s).is_err(), "non-ASCII range is rejected");
    vp::cover("utf8");
}

// ---------------------------------------------------------------- C02 comparison
fn sym_version(n: usize) -> (String, Version) {
    let s = vp::string_of(n, VCH);
    match v(&s) { Some(x) => (s, x), None => { vp::assume(false); unreachable!() } }
}
fn ord_check(a: &str, b: &str, x: &Version, y: &Version) {
    vp::show!("a = {a:?} b = {b:?}");
    let o = x.cmp(y);
    vp::check(o == refver::cmp(a.as_bytes(), b.as_bytes()), "cmp is the documented order");
    vp::check(y.cmp(x) == o.reverse(), "antisymmetric");
    vp::check((x == y) == (o == Ordering::Equal), "== agrees with cmp");
    vp::check(x.partial_cmp(y) == Some(o), "partial_cmp agrees with cmp");
    vp::check((x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), "< and >= agree with cmp");
    vp::check(x.cmp(x) == Ordering::Equal, "reflexive");
    if o == Ordering::Less { vp::cover("less"); }
    if o == Ordering::Equal { vp::cover("equal"); }
    if o == Ordering::Greater { vp::cover("greater"); }
}
#[no_mangle]
pub extern "C" fn h_cmp() {
    warm();
    let m = 1 + vp::choice(vp::param(0, 3) as u8) as usize;
    let n = 1 + vp::choice(vp::param(1, 3) as u8) as usize;
    let (a, x) = sym_version(m);
    let (b, y) = sym_version(n);
    ord_check(&a, &b, &x, &y);
}
/// Shape-directed longer versions: `d.d.d` / `d.dd` / `d.wd` / ... with every character symbolic in its class.
const SHAPES: &[&str] = &["d", "d.d", "d.d.d", "d.0", "d.0.0", "dd.d", "d.w", "d.w.d", "d.wd", "d.dw", "d.d-w", "d.d.wd", "d-d", "w", "d.w_d", "d.d.d.d", "d.dd.0.d"];
pub use vp::shaped;
#[no_mangle]
pub extern "C" fn h_cmp_shapes() {
    warm();
    let n = vp::param(0, 17) as u8;
    let a = shaped(SHAPES[vp::choice(n) as usize]);
    let b = shaped(SHAPES[vp::choice(n) as usize]);
    let (Some(x), Some(y)) = (v(&a), v(&b)) else { vp::assume(false); return };
    ord_check(&a, &b, &x, &y);
}
/// Long numbers: digit strings of 17..=22 digits (beyond i64 and u64), two free digits each.
#[no_mangle]
pub extern "C" fn h_cmp_bignum() {
    warm();
    let big = |len: usize| {
        let mut s = String::new();
        for i in 0..len { if i == 0 || i == len - 1 { s.push(vp::byte_of(b"0123456789") as char); } else { s.push(b"9223372036854775807000"[i] as char); } }
        s
    };
    let l1 = 17 + vp::choice(6) as usize;
    let l2 = 17 + vp::choice(6) as usize;
    let pre = vp::choice(3);
    let p = ["", "1.", "a"][pre as usize];
    let a = format!("{p}{}", big(l1));
    let b = format!("{p}{}", if vp::flag() { big(l2) } else { shaped("d") });
    let (Some(x), Some(y)) = (v(&a), v(&b)) else { vp::check(false, "a long number is a version"); return };
    ord_check(&a, &b, &x, &y);
}
/// Special versions against ordinary ones.
#[no_mangle]
pub extern "C" fn h_cmp_special() {
    warm();
    let a = ["", "inf", "epsilon", "INF", "a", "0"][vp::choice(6) as usize].to_string();
    let b = if vp::flag() { ["", "inf", "epsilon", "0", "z"][vp::choice(5) as usize].to_string() } else { let n = 1 + vp::choice(3) as usize; vp::string_of(n, VCH) };
    let (Some(x), Some(y)) = (v(&a), v(&b)) else { vp::assume(false); return };
    ord_check(&a, &b, &x, &y);
}
/// C03: transitivity of < and of ==.
fn trans(s: [&str; 3], t: [&Version; 3]) {
    vp::show!("a = {:?} b = {:?} c = {:?}", s[0], s[1], s[2]);
    let le = |i: usize, j: usize| t[i] <= t[j];
    let bad = le(0, 1) && le(1, 2) && !le(0, 2);
    if bad {
        let z = |i: usize, j: usize| refver::zero_pad_pair(s[i].as_bytes(), s[j].as_bytes());
        if z(0, 1) || z(1, 2) || z(0, 2) { vp::known("C03-zero-padding-cycle"); }
    }
    vp::check(!bad, "a <= b and b <= c imply a <= c");
    vp::cover("triple");
}
#[no_mangle]
pub extern "C" fn h_trans_shapes() {
    warm();
    let n = vp::param(0, 11) as u8;
    let a = shaped(SHAPES[vp::choice(n) as usize]);
    let b = shaped(SHAPES[vp::choice(n) as usize]);
    let c = shaped(SHAPES[vp::choice(n) as usize]);
    let (Some(x), Some(y), Some(z)) = (v(&a), v(&b), v(&c)) else { vp::assume(false); return };
    trans([&a, &b, &c], [&x, &y, &z]);
}
#[no_mangle]
pub extern "C" fn h_trans_chars() {
    warm();
    let n = vp::param(0, 2) as usize;
    let (a, x) = sym_version(n);
    let (b, y) = sym_version(n);
    let (c, z) = sym_version(n);
    trans([&a, &b, &c], [&x, &y, &z]);
}

/// C04: equal versions hash equally.
/// Everything `Hash` feeds to the hasher: equal streams hash equally under every hasher.
fn hash_of(x: &Version) -> Vec<u8> {
    use std::hash::{Hash, Hasher};
    struct F(Vec<u8>);
    impl Hasher for F {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
    }
    let mut h = F(Vec::new());
    x.hash(&mut h);
    h.0
}
#[no_mangle]
pub extern "C" fn h_hash() {
    warm();
    let a;
    let b;
    if vp::flag() {
        let n = vp::param(0, 17) as u8;
        a = shaped(SHAPES[vp::choice(n) as usize]);
        b = shaped(SHAPES[vp::choice(n) as usize]);
    } else {
        let m = 1 + vp::choice(3) as usize;
        let n = 1 + vp::choice(3) as usize;
        a = vp::string_of(m, VCH);
        b = vp::string_of(n, VCH);
    }
    let (Some(x), Some(y)) = (v(&a), v(&b)) else { vp::assume(false); return };
    vp::show!("a = {a:?} b = {b:?}");
    if x == y {
        vp::check(hash_of(&x) == hash_of(&y), "equal versions have equal hashes");
        vp::cover("equal");
    }
}
vp::harnesses!(h_parse_ascii, h_parse_chars, h_parse_long, h_parse_words, h_parse_utf8, h_cmp, h_cmp_shapes, h_cmp_bignum, h_cmp_special, h_trans_shapes, h_trans_chars, h_hash,
    h_range_alt, h_range_or, h_range_conj, h_range_compat, h_range_compat_max, h_range_raw, h_alg_terms, h_alg_intervals, h_alg_large, h_alg_compose, h_alg_exact, h_alg_exact3, h_range_serde, h_ver_serde, h_range_serde_computed);
