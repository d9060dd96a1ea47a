//! Bit-vector expression DAG with light-weight algebraic simplification.
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }

#[derive(Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(Bin, E, E),
    Cmp(Cmp, E, E),
    Not(E),
    Concat(E, E), // hi, lo
    Extract(E, u16), // lo bit; width = node width
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
}

#[derive(Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub hash: u64,
    /// support: up to two distinct variables tracked exactly; `many` beyond
    pub sup: Sup,
    pub size: u32,
    /// known-zero upper bits bound: value < 2^maxbits
    pub maxbits: u16,
}
pub type E = Arc<Node>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sup { None, One(u32), Many }

fn sup_join(a: Sup, b: Sup) -> Sup {
    match (a, b) {
        (Sup::None, x) | (x, Sup::None) => x,
        (Sup::One(x), Sup::One(y)) if x == y => Sup::One(x),
        _ => Sup::Many,
    }
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x.wrapping_mul(0xA076_1D64_78BD_642F)
}

// Per-thread hash-consing table (weak-ish: cleared when large). Purely an optimisation:
// structural sharing across threads is not required for correctness.
thread_local! {
    static CONS: RefCell<HashMap<u64, E>> = RefCell::new(HashMap::new());
}

fn shallow_eq(a: &Node, b: &Node) -> bool {
    if a.w != b.w { return false; }
    let pe = |x: &E, y: &E| Arc::ptr_eq(x, y);
    match (&a.k, &b.k) {
        (K::Const(x), K::Const(y)) => x == y,
        (K::Var(x), K::Var(y)) => x == y,
        (K::Bin(o, a1, a2), K::Bin(p, b1, b2)) => o == p && pe(a1, b1) && pe(a2, b2),
        (K::Cmp(o, a1, a2), K::Cmp(p, b1, b2)) => o == p && pe(a1, b1) && pe(a2, b2),
        (K::Not(x), K::Not(y)) | (K::ZExt(x), K::ZExt(y)) | (K::SExt(x), K::SExt(y)) => pe(x, y),
        (K::Concat(a1, a2), K::Concat(b1, b2)) => pe(a1, b1) && pe(a2, b2),
        (K::Extract(x, l), K::Extract(y, m)) => l == m && pe(x, y),
        (K::Ite(a1, a2, a3), K::Ite(b1, b2, b3)) => pe(a1, b1) && pe(a2, b2) && pe(a3, b3),
        _ => false,
    }
}

pub fn same(a: &E, b: &E) -> bool {
    if Arc::ptr_eq(a, b) { return true; }
    if a.hash != b.hash || a.w != b.w || a.size != b.size { return false; }
    match (&a.k, &b.k) {
        (K::Const(x), K::Const(y)) => x == y,
        (K::Var(x), K::Var(y)) => x == y,
        (K::Bin(o, a1, a2), K::Bin(p, b1, b2)) => o == p && same(a1, b1) && same(a2, b2),
        (K::Cmp(o, a1, a2), K::Cmp(p, b1, b2)) => o == p && same(a1, b1) && same(a2, b2),
        (K::Not(x), K::Not(y)) | (K::ZExt(x), K::ZExt(y)) | (K::SExt(x), K::SExt(y)) => same(x, y),
        (K::Concat(a1, a2), K::Concat(b1, b2)) => same(a1, b1) && same(a2, b2),
        (K::Extract(x, l), K::Extract(y, m)) => l == m && same(x, y),
        (K::Ite(a1, a2, a3), K::Ite(b1, b2, b3)) => same(a1, b1) && same(a2, b2) && same(a3, b3),
        _ => false,
    }
}

fn mk(k: K, w: u16) -> E {
    let (hash, sup, size, maxbits) = match &k {
        K::Const(c) => (mix(mix(1, *c as u64), (*c >> 64) as u64), Sup::None, 1, 128 - c.leading_zeros() as u16),
        K::Var(v) => (mix(2, *v as u64), Sup::One(*v), 1, w),
        K::Bin(o, a, b) => (mix(mix(mix(3, *o as u64), a.hash), b.hash), sup_join(a.sup, b.sup), a.size.saturating_add(b.size).saturating_add(1),
            match o {
                Bin::And => a.maxbits.min(b.maxbits),
                Bin::Or | Bin::Xor => a.maxbits.max(b.maxbits),
                Bin::Add => (a.maxbits.max(b.maxbits) + 1).min(w),
                Bin::Mul => (a.maxbits + b.maxbits).min(w),
                Bin::LShr => match &b.k { K::Const(c) => a.maxbits.saturating_sub((*c).min(128) as u16), _ => a.maxbits },
                Bin::Shl => match &b.k { K::Const(c) => (a.maxbits + (*c).min(128) as u16).min(w), _ => w },
                Bin::UDiv => if matches!(b.k, K::Const(c) if c != 0) { a.maxbits } else { w },
                Bin::URem => match &b.k { K::Const(c) if *c > 0 => a.maxbits.min(128 - (*c - 1).leading_zeros() as u16), _ => w },
                _ => w,
            }),
        K::Cmp(o, a, b) => (mix(mix(mix(4, *o as u64), a.hash), b.hash), sup_join(a.sup, b.sup), a.size.saturating_add(b.size).saturating_add(1), 1),
        K::Not(a) => (mix(5, a.hash), a.sup, a.size.saturating_add(1), w),
        K::Concat(a, b) => (mix(mix(6, a.hash), b.hash), sup_join(a.sup, b.sup), a.size.saturating_add(b.size).saturating_add(1),
            if a.maxbits == 0 { b.maxbits } else { a.maxbits + b.w }),
        K::Extract(a, l) => (mix(mix(7, *l as u64), a.hash), a.sup, a.size.saturating_add(1), w.min(a.maxbits.saturating_sub(*l))),
        K::ZExt(a) => (mix(8, a.hash), a.sup, a.size.saturating_add(1), a.maxbits),
        K::SExt(a) => (mix(9, a.hash), a.sup, a.size.saturating_add(1), if a.maxbits < a.w { a.maxbits } else { w }),
        K::Ite(c, a, b) => (mix(mix(mix(10, c.hash), a.hash), b.hash), sup_join(sup_join(a.sup, b.sup), c.sup),
            a.size.saturating_add(b.size).saturating_add(c.size).saturating_add(1), a.maxbits.max(b.maxbits)),
    };
    let hash = mix(hash, w as u64);
    let n = Node { k, w, hash, sup, size, maxbits };
    CONS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(e) = t.get(&hash) {
            if shallow_eq(e, &n) { return e.clone(); }
        }
        if t.len() > 400_000 { t.clear(); }
        let e = Arc::new(n);
        t.insert(hash, e.clone());
        e
    })
}

pub fn konst(v: u128, w: u16) -> E { mk(K::Const(v & mask(w)), w) }
pub fn var(id: u32, w: u16) -> E { mk(K::Var(id), w) }
pub fn cval(e: &E) -> Option<u128> { if let K::Const(c) = e.k { Some(c) } else { None } }

pub fn bin_const(o: Bin, a: u128, b: u128, w: u16) -> u128 {
    let m = mask(w);
    let r = match o {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => if b == 0 { m } else { a / b },
        Bin::URem => if b == 0 { a } else { a % b },
        Bin::SDiv => if b == 0 { if sext(a, w) >= 0 { m } else { 1 } } else { sext(a, w).wrapping_div(sext(b, w)) as u128 },
        Bin::SRem => if b == 0 { a } else { sext(a, w).wrapping_rem(sext(b, w)) as u128 },
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => { let s = sext(a, w); (if b >= w as u128 { s >> 127 } else { s >> b }) as u128 }
    };
    r & m
}
pub fn cmp_const(o: Cmp, a: u128, b: u128, w: u16) -> bool {
    match o {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sext(a, w) < sext(b, w),
        Cmp::Sle => sext(a, w) <= sext(b, w),
    }
}

pub fn bin(o: Bin, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return konst(bin_const(o, x, y, w), w); }
    // canonical: constant on the right for commutative ops
    let comm = matches!(o, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
    let (a, b) = if comm && cval(a).is_some() { (b, a) } else { (a, b) };
    let m = mask(w);
    if let Some(c) = cval(b) {
        match o {
            Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if c == 0 => return a.clone(),
            Bin::And if c == 0 => return konst(0, w),
            Bin::And if c == m => return a.clone(),
            Bin::Or if c == m => return konst(m, w),
            Bin::Mul if c == 0 => return konst(0, w),
            Bin::Mul if c == 1 => return a.clone(),
            Bin::UDiv | Bin::SDiv if c == 1 => return a.clone(),
            Bin::URem if c == 1 => return konst(0, w),
            Bin::Shl | Bin::LShr if c >= w as u128 => return konst(0, w),
            Bin::Mul if c.is_power_of_two() => return bin(Bin::Shl, a, &konst(c.trailing_zeros() as u128, w)),
            Bin::UDiv if c.is_power_of_two() => return bin(Bin::LShr, a, &konst(c.trailing_zeros() as u128, w)),
            Bin::URem if c.is_power_of_two() => return bin(Bin::And, a, &konst(c - 1, w)),
            Bin::Sub => return bin(Bin::Add, a, &konst(c.wrapping_neg(), w)),
            Bin::Xor if c == m => return not(a),
            _ => {}
        }
        if o == Bin::Add {
            if let K::Bin(Bin::Add, x, y) = &a.k {
                if let Some(d) = cval(y) { return bin(Bin::Add, x, &konst(c.wrapping_add(d), w)); }
            }
        }
        if o == Bin::And {
            // and with low mask: extract+zext
            if (c + 1).is_power_of_two() && c != 0 {
                let n = (c + 1).trailing_zeros() as u16;
                if a.maxbits <= n { return a.clone(); }
                if n < w { return zext(&extract(a, 0, n), w); }
            }
            if let K::Bin(Bin::And, x, y) = &a.k {
                if let Some(d) = cval(y) { return bin(Bin::And, x, &konst(c & d, w)); }
            }
            if a.maxbits < 128 && (c >> a.maxbits) != 0 {
                let c2 = c & mask(a.maxbits);
                return bin(Bin::And, a, &konst(c2, w));
            }
        }
        if o == Bin::LShr {
            // lshr by const => zext(extract)
            let s = c as u16;
            if a.maxbits <= s { return konst(0, w); }
            return zext(&extract(a, s, w - s), w);
        }
        if o == Bin::Shl {
            let s = c as u16;
            return concat(&extract(a, 0, w - s), &konst(0, s));
        }
        if o == Bin::AShr {
            let s = (c as u16).min(w - 1);
            if a.maxbits < w { return bin(Bin::LShr, a, &konst(s as u128, w)); }
            return sext_e(&extract(a, s, w - s), w);
        }
    } else if let Some(c) = cval(a) {
        match o {
            Bin::Shl | Bin::LShr | Bin::UDiv | Bin::URem if c == 0 => return konst(0, w),
            _ => {}
        }
    }
    if same(a, b) {
        match o {
            Bin::Sub | Bin::Xor => return konst(0, w),
            Bin::And | Bin::Or => return a.clone(),
            _ => {}
        }
    }
    // disjoint or/add of concat-style byte assembly: or(zext(x), concat(y,0)) => concat(y,x)
    if o == Bin::Or || o == Bin::Add || o == Bin::Xor {
        for (p, q) in [(a, b), (b, a)] {
            if let K::Concat(h, l) = &p.k {
                if cval(l) == Some(0) && q.maxbits <= l.w {
                    return concat(h, &extract(q, 0, l.w));
                }
            }
            if let K::ZExt(x) = &p.k {
                if let K::Concat(h, l) = &x.k {
                    if cval(l) == Some(0) && q.maxbits <= l.w {
                        return zext(&concat(h, &extract(q, 0, l.w)), w);
                    }
                }
            }
        }
    }
    // boolean (1-bit) normalisation
    if w == 1 {
        match o {
            Bin::And | Bin::Or => {
                if let K::Not(x) = &b.k { if same(x, a) { return konst((o == Bin::Or) as u128, 1); } }
                if let K::Not(x) = &a.k { if same(x, b) { return konst((o == Bin::Or) as u128, 1); } }
            }
            Bin::Add | Bin::Sub => return bin(Bin::Xor, a, b),
            Bin::Mul => return bin(Bin::And, a, b),
            _ => {}
        }
    }
    // push constants through ite with constant arms
    if let Some(c) = cval(b) {
        if let K::Ite(i, x, y) = &a.k {
            if let (Some(cx), Some(cy)) = (cval(x), cval(y)) {
                return ite(i, &konst(bin_const(o, cx, c, w), w), &konst(bin_const(o, cy, c, w), w));
            }
        }
        // narrow: op(zext(x), c) for And/Or/Xor when c fits
        if let K::ZExt(x) = &a.k {
            if matches!(o, Bin::And | Bin::Or | Bin::Xor) && c <= mask(x.w) {
                return zext(&bin(o, x, &konst(c, x.w)), w);
            }
        }
    }
    if matches!(o, Bin::And | Bin::Or | Bin::Xor) {
        if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) {
            if x.w == y.w { return zext(&bin(o, x, y), w); }
        }
    }
    let (a, b) = if comm && cval(b).is_none() && a.hash > b.hash { (b, a) } else { (a, b) };
    mk(K::Bin(o, a.clone(), b.clone()), w)
}

pub fn not(a: &E) -> E {
    match &a.k {
        K::Const(c) => konst(!c, a.w),
        K::Not(x) => x.clone(),
        K::Cmp(Cmp::Ult, x, y) => cmp(Cmp::Ule, y, x),
        K::Cmp(Cmp::Ule, x, y) => cmp(Cmp::Ult, y, x),
        K::Cmp(Cmp::Slt, x, y) => cmp(Cmp::Sle, y, x),
        K::Cmp(Cmp::Sle, x, y) => cmp(Cmp::Slt, y, x),
        _ => mk(K::Not(a.clone()), a.w),
    }
}

pub fn cmp(o: Cmp, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return konst(cmp_const(o, x, y, w) as u128, 1); }
    if same(a, b) { return konst(matches!(o, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1); }
    // signed compares of values known non-negative
    if matches!(o, Cmp::Slt | Cmp::Sle) {
        let nn = |e: &E| e.maxbits < w;
        if nn(a) && nn(b) { return cmp(if o == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b); }
    }
    // ranges
    if a.maxbits < 128 || b.maxbits < 128 {
        if let Some(c) = cval(b) {
            let amax = mask(a.maxbits);
            match o {
                Cmp::Eq if c > amax => return konst(0, 1),
                Cmp::Ult if c > amax => return konst(1, 1),
                Cmp::Ule if c >= amax => return konst(1, 1),
                Cmp::Ult if c == 0 => return konst(0, 1),
                Cmp::Ule if c == 0 => return cmp(Cmp::Eq, a, b),
                Cmp::Slt if a.maxbits < w && (c >> (w - 1)) & 1 == 1 => return konst(0, 1),
                Cmp::Sle if a.maxbits < w && (c >> (w - 1)) & 1 == 1 => return konst(0, 1),
                _ => {}
            }
        }
        if let Some(c) = cval(a) {
            let bmax = mask(b.maxbits);
            match o {
                Cmp::Eq => return cmp(Cmp::Eq, b, a),
                Cmp::Ult if c >= bmax => return konst(0, 1),
                Cmp::Ule if c > bmax => return konst(0, 1),
                Cmp::Ule if c == 0 => return konst(1, 1),
                Cmp::Slt if b.maxbits < w && (c >> (w - 1)) & 1 == 1 => return konst(1, 1),
                Cmp::Sle if b.maxbits < w && (c >> (w - 1)) & 1 == 1 => return konst(1, 1),
                _ => {}
            }
        }
    }
    // narrowing through zext / concat-with-zero-high
    let mb = a.maxbits.max(b.maxbits).max(1);
    if mb < w && matches!(o, Cmp::Eq | Cmp::Ult | Cmp::Ule) {
        return cmp(o, &extract(a, 0, mb), &extract(b, 0, mb));
    }
    if let (K::SExt(x), K::SExt(y)) = (&a.k, &b.k) { if x.w == y.w { return cmp(o, x, y); } }
    if let Some(c) = cval(b) {
        match &a.k {
            K::Ite(i, x, y) => {
                if let (Some(cx), Some(cy)) = (cval(x), cval(y)) {
                    let (r1, r2) = (cmp_const(o, cx, c, w), cmp_const(o, cy, c, w));
                    return ite(i, &konst(r1 as u128, 1), &konst(r2 as u128, 1));
                }
                // push into arms when at least one is constant (keeps chains linear)
                if cval(x).is_some() || cval(y).is_some() {
                    return ite(i, &cmp(o, x, b), &cmp(o, y, b));
                }
            }
            K::SExt(x) if o == Cmp::Eq => {
                let lo = c & mask(x.w);
                if (sext(lo, x.w) as u128) & mask(w) == c { return cmp(o, x, &konst(lo, x.w)); }
                return konst(0, 1);
            }
            K::SExt(x) if x.w == 1 => {
                // value is 0 or all-ones
                let t = cmp_const(o, mask(w), c, w);
                let f = cmp_const(o, 0, c, w);
                return ite(x, &konst(t as u128, 1), &konst(f as u128, 1));
            }
            K::Concat(h, l) if o == Cmp::Eq => {
                let hc = c >> l.w;
                let lc = c & mask(l.w);
                return bin(Bin::And, &cmp(o, h, &konst(hc, h.w)), &cmp(o, l, &konst(lc, l.w)));
            }
            K::Bin(Bin::Add, x, y) if o == Cmp::Eq => {
                if let Some(d) = cval(y) { return cmp(o, x, &konst(c.wrapping_sub(d), w)); }
            }
            K::Bin(Bin::Xor, x, y) if o == Cmp::Eq => {
                if let Some(d) = cval(y) { return cmp(o, x, &konst(c ^ d, w)); }
                if c == 0 { return cmp(o, x, y); }
            }
            K::Not(x) if o == Cmp::Eq => return cmp(o, x, &konst(!c, w)),
            K::Bin(Bin::Or, x, y) if o == Cmp::Eq && c == 0 => {
                return bin(Bin::And, &cmp(o, x, b), &cmp(o, y, b));
            }
            _ => {}
        }
        if w == 1 {
            match (o, c) {
                (Cmp::Eq, 1) => return a.clone(),
                (Cmp::Eq, 0) => return not(a),
                (Cmp::Ult, 1) => return not(a),
                _ => {}
            }
        }
        // x < 2^k-style kept as is
    }
    if let Some(c) = cval(a) {
        if let K::Ite(i, x, y) = &b.k {
            if cval(x).is_some() || cval(y).is_some() {
                return ite(i, &cmp(o, a, x), &cmp(o, a, y));
            }
        }
        if w == 1 && o == Cmp::Ult && c == 0 { return b.clone(); }
    }
    if o == Cmp::Eq {
        if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (&a.k, &b.k) {
            if l1.w == l2.w { return bin(Bin::And, &cmp(o, h1, h2), &cmp(o, l1, l2)); }
        }
        if w == 1 { return not(&bin(Bin::Xor, a, b)); }
        let (a, b) = if cval(b).is_none() && a.hash > b.hash { (b, a) } else { (a, b) };
        return mk(K::Cmp(o, a.clone(), b.clone()), 1);
    }
    mk(K::Cmp(o, a.clone(), b.clone()), 1)
}

pub fn concat(h: &E, l: &E) -> E {
    if h.w == 0 { return l.clone(); }
    if l.w == 0 { return h.clone(); }
    let w = h.w + l.w;
    if let (Some(x), Some(y)) = (cval(h), cval(l)) { return konst((x << l.w) | y, w); }
    if cval(h) == Some(0) { return zext(l, w); }
    // adjacent extracts
    if let (K::Extract(x, a), K::Extract(y, b)) = (&h.k, &l.k) {
        if same(x, y) && *a == *b + l.w { return extract(x, *b, w); }
    }
    // x[k..] ++ low k bits where low is a narrower view: extract(x,lo) with l == Extract or whole
    if let K::Extract(x, a) = &h.k {
        if let K::Extract(_, _) = &l.k {} else if *a == l.w && x.w == w && same(&extract(x, 0, l.w), l) { return x.clone(); }
    }
    if let K::ZExt(x) = &h.k {
        return zext(&concat(x, l), w);
    }
    // concat(h1, concat(h2,l2)) where h1,h2 adjacent
    if let K::Concat(h2, l2) = &l.k {
        if let (K::Extract(x, a), K::Extract(y, b)) = (&h.k, &h2.k) {
            if same(x, y) && *a == *b + h2.w { return concat(&extract(x, *b, h.w + h2.w), l2); }
        }
        if cval(h).is_some() && cval(h2).is_some() { return concat(&concat(h, h2), l2); }
    }
    if let K::Concat(h1, l1) = &h.k {
        // right-associate
        return concat(h1, &concat(l1, l));
    }
    mk(K::Concat(h.clone(), l.clone()), w)
}

pub fn extract(a: &E, lo: u16, w: u16) -> E {
    if lo == 0 && w == a.w { return a.clone(); }
    if w == 0 { return mk(K::Const(0), 0); }
    if a.maxbits <= lo { return konst(0, w); }
    match &a.k {
        K::Const(c) => konst(c >> lo, w),
        K::Extract(x, l) => extract(x, l + lo, w),
        K::Concat(h, l) => {
            if lo >= l.w { extract(h, lo - l.w, w) }
            else if lo + w <= l.w { extract(l, lo, w) }
            else { concat(&extract(h, 0, lo + w - l.w), &extract(l, lo, l.w - lo)) }
        }
        K::ZExt(x) => {
            if lo + w <= x.w { extract(x, lo, w) }
            else if lo >= x.w { konst(0, w) }
            else { zext(&extract(x, lo, x.w - lo), w) }
        }
        K::SExt(x) => {
            if lo + w <= x.w { extract(x, lo, w) }
            else if lo == 0 { sext_e(x, w) }
            else if lo < x.w { sext_e(&extract(x, lo, x.w - lo), w) }
            else { sext_e(&extract(x, x.w - 1, 1), w) }
        }
        K::Ite(c, x, y) if (cval(x).is_some() && cval(y).is_some()) || a.size < 64 => ite(c, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(o, x, y) if matches!(o, Bin::And | Bin::Or | Bin::Xor) => bin(*o, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(o, x, y) if lo == 0 && matches!(o, Bin::Add | Bin::Sub | Bin::Mul) && a.size < 64 => bin(*o, &extract(x, 0, w), &extract(y, 0, w)),
        K::Not(x) => not(&extract(x, lo, w)),
        _ => mk(K::Extract(a.clone(), lo), w),
    }
}

pub fn zext(a: &E, w: u16) -> E {
    if w == a.w { return a.clone(); }
    match &a.k {
        K::Const(c) => konst(*c, w),
        K::ZExt(x) => zext(x, w),
        K::Ite(c, x, y) if cval(x).is_some() && cval(y).is_some() => ite(c, &zext(x, w), &zext(y, w)),
        _ => mk(K::ZExt(a.clone()), w),
    }
}
pub fn sext_e(a: &E, w: u16) -> E {
    if w == a.w { return a.clone(); }
    if a.maxbits < a.w { return zext(a, w); }
    match &a.k {
        K::Const(c) => konst(sext(*c, a.w) as u128, w),
        K::SExt(x) => sext_e(x, w),
        K::Ite(c, x, y) if cval(x).is_some() && cval(y).is_some() => ite(c, &sext_e(x, w), &sext_e(y, w)),
        _ => mk(K::SExt(a.clone()), w),
    }
}

pub fn ite(c: &E, a: &E, b: &E) -> E {
    if let Some(k) = cval(c) { return if k != 0 { a.clone() } else { b.clone() }; }
    if same(a, b) { return a.clone(); }
    if a.w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Bin::Or, c, b),
            (Some(0), None) => return bin(Bin::And, &not(c), b),
            (None, Some(0)) => return bin(Bin::And, c, a),
            (None, Some(1)) => return bin(Bin::Or, &not(c), a),
            _ => {}
        }
    }
    if let K::Not(x) = &c.k { return ite(x, b, a); }
    // same inner value: ite(c1, v, ite(c2, v, z)) => ite(c1|c2, v, z)
    if let K::Ite(c2, x, y) = &b.k {
        if same(x, a) { return ite(&bin(Bin::Or, c, c2), a, y); }
        if same(c2, c) { return ite(c, a, y); }
    }
    if let K::Ite(c2, x, _) = &a.k {
        if same(c2, c) { return ite(c, x, b); }
    }
    let w = a.w;
    mk(K::Ite(c.clone(), a.clone(), b.clone()), w)
}

pub fn bool_and(a: &E, b: &E) -> E { bin(Bin::And, a, b) }

/// Evaluate under an assignment.
pub struct Eval<'a> { pub model: &'a [u64], memo: HashMap<*const Node, u128> }
impl<'a> Eval<'a> {
    pub fn new(model: &'a [u64]) -> Self { Eval { model, memo: HashMap::new() } }
    pub fn eval(&mut self, e: &E) -> u128 {
        let memo = e.size > 24;
        if memo { if let Some(v) = self.memo.get(&Arc::as_ptr(e)) { return *v; } }
        let r = match &e.k {
            K::Const(c) => *c,
            K::Var(v) => (self.model.get(*v as usize).copied().unwrap_or(0) as u128) & mask(e.w),
            K::Bin(o, a, b) => { let x = self.eval(a); let y = self.eval(b); bin_const(*o, x, y, e.w) }
            K::Cmp(o, a, b) => { let x = self.eval(a); let y = self.eval(b); cmp_const(*o, x, y, a.w) as u128 }
            K::Not(a) => !self.eval(a) & mask(e.w),
            K::Concat(h, l) => (self.eval(h) << l.w) | self.eval(l),
            K::Extract(a, l) => (self.eval(a) >> l) & mask(e.w),
            K::ZExt(a) => self.eval(a),
            K::SExt(a) => (sext(self.eval(a), a.w) as u128) & mask(e.w),
            K::Ite(c, a, b) => if self.eval(c) != 0 { self.eval(a) } else { self.eval(b) },
        };
        if memo { self.memo.insert(Arc::as_ptr(e), r); }
        r
    }
}

pub fn collect_vars(e: &E, seen: &mut std::collections::HashSet<*const Node>, out: &mut Vec<u32>) {
    match e.sup {
        Sup::None => return,
        Sup::One(v) => { if !out.contains(&v) { out.push(v); } return; }
        Sup::Many => {}
    }
    if !seen.insert(Arc::as_ptr(e)) { return; }
    match &e.k {
        K::Const(_) | K::Var(_) => {}
        K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => { collect_vars(a, seen, out); collect_vars(b, seen, out); }
        K::Not(a) | K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => collect_vars(a, seen, out),
        K::Ite(c, a, b) => { collect_vars(c, seen, out); collect_vars(a, seen, out); collect_vars(b, seen, out); }
    }
}
pub fn vars_of(e: &E) -> Vec<u32> {
    let mut out = Vec::new();
    collect_vars(e, &mut Default::default(), &mut out);
    out
}
