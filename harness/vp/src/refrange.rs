//! Reference semantics of version ranges, written from the documented grammar:
//!   range := alt ('|' alt)*        alt := '*' | '' | v '+' [rest] | v '..' v | term ((',' | ' ') term)*
//!   term  := ('>=' | '>' | '<=' | '<' | '==' | '!=' | '~=')? version
use crate::refver;
use std::cmp::Ordering::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Ge, Gt, Le, Lt, Eq, Ne, Compat, Any, Never }
pub type Term = (Op, Vec<u8>);
pub type Range = Vec<Vec<Term>>;

/// The exclusive upper limit of `~=v`, where it has one.
fn compat_upper(v: &[u8]) -> Option<Vec<u8>> {
    let parts: Vec<&[u8]> = v.split(|c| *c == b'.').collect();
    let k = match parts.len() { 0 | 1 => return None, 2 => 0, _ => 1 };
    if !parts[k].iter().all(|c| c.is_ascii_digit()) { return None; }
    // decimal increment
    let mut d = parts[k].to_vec();
    let mut i = d.len();
    loop {
        if i == 0 { d.insert(0, b'1'); break; }
        i -= 1;
        if d[i] == b'9' { d[i] = b'0'; } else { d[i] += 1; break; }
    }
    let mut out = Vec::new();
    if k == 1 { out.extend_from_slice(parts[0]); out.push(b'.'); }
    out.extend_from_slice(&d);
    out.extend_from_slice(b".0");
    Some(out)
}
pub fn term_has(t: &Term, v: &[u8]) -> bool {
    let o = match t.0 { Op::Any => return true, Op::Never => return false, _ => refver::cmp(v, &t.1) };
    match t.0 {
        Op::Ge => o != Less,
        Op::Gt => o == Greater,
        Op::Le => o != Greater,
        Op::Lt => o == Less,
        Op::Eq => o == Equal,
        Op::Ne => o != Equal,
        _ => o != Less && match compat_upper(&t.1) { Some(u) => refver::cmp(v, &u) == Less, None => true },
    }
}
pub fn has(r: &Range, v: &[u8]) -> bool {
    r.iter().any(|alt| alt.iter().all(|t| term_has(t, v)))
}
fn isop(c: u8) -> bool { matches!(c, b'>' | b'<' | b'=' | b'!' | b'~') }
fn find2(s: &[u8]) -> Option<usize> { (0..s.len().saturating_sub(1)).find(|i| s[*i] == b'.' && s[*i + 1] == b'.') }

fn term(s: &[u8]) -> Option<Term> {
    let s = refver::trim(s);
    if s.is_empty() || s == b"*" { return Some((Op::Any, vec![])); }
    let table: [(&[u8], Op); 7] = [(b">=", Op::Ge), (b"<=", Op::Le), (b"==", Op::Eq), (b"!=", Op::Ne), (b"~=", Op::Compat), (b">", Op::Gt), (b"<", Op::Lt)];
    let (mut op, mut v) = (Op::Eq, s);
    for (t, o) in table { if s.starts_with(t) { op = o; v = &s[t.len()..]; break; } }
    let v = refver::trim(v);
    if !refver::valid(v) { return None; }
    Some((op, v.to_vec()))
}
fn conj(s: &[u8]) -> Option<Vec<Term>> {
    let mut out = Vec::new();
    for piece in s.split(|c| *c == b',') {
        // a space in front of an operator separates terms
        let piece = refver::trim(piece);
        let mut st = 0;
        let mut i = 0;
        while i < piece.len() {
            if piece[i] == b' ' {
                let mut j = i;
                while j < piece.len() && piece[j] == b' ' { j += 1; }
                if j < piece.len() && isop(piece[j]) {
                    if !refver::trim(&piece[st..i]).is_empty() { out.push(term(&piece[st..i])?); }
                    st = j;
                }
                i = j;
            } else { i += 1; }
        }
        if !refver::trim(&piece[st..]).is_empty() { out.push(term(&piece[st..])?); }
    }
    if out.is_empty() { out.push((Op::Any, vec![])); }
    Some(out)
}
fn alt(s: &[u8]) -> Option<Vec<Term>> {
    let s = refver::trim(s);
    if s.is_empty() || s == b"*" { return Some(vec![(Op::Any, vec![])]); }
    if s == b"empty" || s == b"!*" { return Some(vec![(Op::Never, vec![])]); }
    if !isop(s[0]) {
        if s[0] != b'.' {
            if let Some(p) = find2(s) {
                if p + 2 < s.len() {
                    let mut t = b">=".to_vec();
                    t.extend_from_slice(refver::trim(&s[..p]));
                    t.extend_from_slice(b",<");
                    t.extend_from_slice(refver::trim(&s[p + 2..]));
                    return conj(&t);
                }
            }
        }
        if let Some(p) = s.iter().position(|c| *c == b'+') {
            let mut t = b">=".to_vec();
            t.extend_from_slice(&s[..p]);
            if p + 1 < s.len() { t.push(b','); t.extend_from_slice(&s[p + 1..]); }
            return conj(&t);
        }
    }
    conj(s)
}
pub fn parse(s: &[u8]) -> Option<Range> {
    let s = refver::trim(s);
    s.split(|c| *c == b'|').map(alt).collect()
}
