//! Reference semantics of versions, written from the documentation, independent of /repo's code.
//! Works on bytes of ASCII version text.
use std::cmp::Ordering;

/// Is `s` (ASCII, already trimmed) a valid version text?
pub fn valid(s: &[u8]) -> bool {
    if s.is_empty() { return true; }
    if s == b"inf" || s == b"epsilon" { return true; }
    if s[0] == b'v' || s[0] == b'V' { return false; }
    let mut toks = 0; // tokens so far
    let mut nums = 0;
    let mut i = 0;
    loop {
        // one token
        let st = i;
        let mut digits = true;
        let mut alpha = true;
        while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
            if !s[i].is_ascii_digit() { digits = false; }
            if !s[i].is_ascii_alphabetic() { alpha = false; }
            i += 1;
        }
        if i == st { return false; }
        let t = &s[st..i];
        if t[0] == b'_' || t[t.len() - 1] == b'_' { return false; }
        if alpha && t.len() > 10 { return false; }
        if t == b"not" || t == b"version" { return false; }
        toks += 1;
        if digits { nums += 1; }
        if i == s.len() { break; }
        if s[i] != b'.' && s[i] != b'-' && s[i] != b'+' { return false; }
        i += 1;
    }
    toks <= 10 && nums <= 5
}
/// Token boundaries of a valid, non-special version text.
pub fn tokens(s: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    if s.is_empty() || s == b"inf" || s == b"epsilon" { return v; }
    let mut st = 0;
    for i in 0..=s.len() {
        if i == s.len() || s[i] == b'.' || s[i] == b'-' || s[i] == b'+' { v.push(&s[st..i]); st = i + 1; }
    }
    v
}
/// Numeric comparison of digit strings of any length.
pub fn num_cmp(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && a[i] == b'0' { i += 1; }
    let mut j = 0;
    while j < b.len() && b[j] == b'0' { j += 1; }
    let (a, b) = (&a[i..], &b[j..]);
    if a.len() != b.len() { return a.len().cmp(&b.len()); }
    for k in 0..a.len() { if a[k] != b[k] { return a[k].cmp(&b[k]); } }
    Ordering::Equal
}
fn run(s: &[u8], i: usize) -> usize {
    let d = s[i].is_ascii_digit();
    let mut j = i + 1;
    while j < s.len() && s[j].is_ascii_digit() == d { j += 1; }
    j
}
/// Tokens: compared as alternating runs of digits (numeric) and other characters
/// (lexicographic, and below any number); a proper prefix is smaller.
pub fn tok_cmp(a: &[u8], b: &[u8]) -> Ordering {
    let (mut i, mut j) = (0, 0);
    loop {
        if i == a.len() || j == b.len() { return (a.len() - i > 0).cmp(&(b.len() - j > 0)); }
        let (p, q) = (run(a, i), run(b, j));
        let (x, y) = (&a[i..p], &b[j..q]);
        let o = match (x[0].is_ascii_digit(), y[0].is_ascii_digit()) {
            (true, true) => num_cmp(x, y),
            (false, true) => Ordering::Less,
            (true, false) => Ordering::Greater,
            (false, false) => {
                let n = x.len().min(y.len());
                let mut o = Ordering::Equal;
                for k in 0..n { if x[k] != y[k] { o = x[k].cmp(&y[k]); break; } }
                if o == Ordering::Equal { x.len().cmp(&y.len()) } else { o }
            }
        };
        if o != Ordering::Equal { return o; }
        i = p;
        j = q;
    }
}
fn class(s: &[u8]) -> u8 {
    if s == b"inf" { 2 } else if s.is_empty() || s == b"epsilon" { 0 } else { 1 }
}
/// Version order: epsilon < everything < inf; token by token; when one is a prefix of the
/// other the shorter is the larger, unless all the extra tokens are the literal `0` (equal).
pub fn cmp(a: &[u8], b: &[u8]) -> Ordering {
    let (ca, cb) = (class(a), class(b));
    if ca != cb || ca != 1 { return ca.cmp(&cb); }
    let (ta, tb) = (tokens(a), tokens(b));
    let n = ta.len().min(tb.len());
    for k in 0..n {
        let o = tok_cmp(ta[k], tb[k]);
        if o != Ordering::Equal { return o; }
    }
    if ta.len() == tb.len() { return Ordering::Equal; }
    let (ext, swap) = if ta.len() < tb.len() { (&tb[n..], false) } else { (&ta[n..], true) };
    let zeros = ext.iter().all(|t| t.len() == 1 && t[0] == b'0');
    if zeros { Ordering::Equal } else if swap { Ordering::Less } else { Ordering::Greater }
}
/// Same tokens up to extra trailing zero-valued tokens, different length: the region where
/// "1 == 1.0" and "1 > 1.0.1" make the order cyclic.
pub fn zero_pad_pair(a: &[u8], b: &[u8]) -> bool {
    if class(a) != 1 || class(b) != 1 { return false; }
    let (ta, tb) = (tokens(a), tokens(b));
    if ta.len() == tb.len() { return false; }
    let n = ta.len().min(tb.len());
    for k in 0..n { if tok_cmp(ta[k], tb[k]) != Ordering::Equal { return false; } }
    let ext = if ta.len() < tb.len() { &tb[n..] } else { &ta[n..] };
    ext.iter().all(|t| t.iter().all(|c| *c == b'0'))
}
pub fn trim(s: &[u8]) -> &[u8] {
    let ws = |c: u8| c == b' ' || (9..=13).contains(&c);
    let mut i = 0;
    while i < s.len() && ws(s[i]) { i += 1; }
    let mut j = s.len();
    while j > i && ws(s[j - 1]) { j -= 1; }
    &s[i..j]
}
