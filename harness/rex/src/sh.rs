//! Independent readers for the generated scripts: what would the shell set?
#[derive(Clone, Copy, PartialEq)]
pub enum Sh { Bash, Fish, Ps }
#[derive(PartialEq, Clone)]
pub enum St { Var(Vec<u8>, Vec<u8>), Alias(Vec<u8>, Vec<u8>), Source(Vec<u8>) }
pub struct Rd<'a> { s: &'a [u8], i: usize, sh: Sh }
fn blank(c: u8) -> bool { c == b' ' || c == b'\t' }
impl<'a> Rd<'a> {
    pub fn new(s: &'a str, sh: Sh) -> Self { Rd { s: s.as_bytes(), i: 0, sh } }
    fn at(&self, k: usize) -> Option<u8> { self.s.get(self.i + k).copied() }
    fn lit(&mut self, t: &str) -> bool { if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    fn sp(&mut self) -> bool { let i = self.i; while self.at(0).is_some_and(blank) { self.i += 1; } self.i > i }
    /// One shell word (quoted and unquoted parts); None: malformed or the shell would expand something.
    fn word(&mut self) -> Option<Vec<u8>> {
        let mut out = Vec::new();
        let start = self.i;
        let mut quoted = false;
        loop {
            let c = match self.at(0) { None => break, Some(c) => c };
            if c == b'\'' {
                quoted = true;
                self.i += 1;
                loop {
                    let c = self.at(0)?;
                    self.i += 1;
                    if c == b'\'' {
                        if self.sh == Sh::Ps && self.at(0) == Some(b'\'') { self.i += 1; out.push(b'\''); continue; }
                        break;
                    }
                    if self.sh == Sh::Fish && c == b'\\' && (self.at(0) == Some(b'\'') || self.at(0) == Some(b'\\')) { out.push(self.at(0)?); self.i += 1; continue; }
                    out.push(c);
                }
            } else if c == b'"' {
                quoted = true;
                self.i += 1;
                loop {
                    let c = self.at(0)?;
                    self.i += 1;
                    if c == b'"' {
                        if self.sh == Sh::Ps && self.at(0) == Some(b'"') { self.i += 1; out.push(b'"'); continue; }
                        break;
                    }
                    if c == b'$' { return None; }
                    match self.sh {
                        Sh::Bash if c == b'`' => return None,
                        Sh::Bash if c == b'\\' => {
                            let n = self.at(0)?;
                            if n == b'\n' { self.i += 1; continue; }
                            if n == b'$' || n == b'`' || n == b'"' || n == b'\\' { self.i += 1; out.push(n); } else { out.push(c); }
                        }
                        Sh::Fish if c == b'\\' => {
                            let n = self.at(0)?;
                            if n == b'\n' { self.i += 1; continue; }
                            if n == b'$' || n == b'"' || n == b'\\' { self.i += 1; out.push(n); } else { out.push(c); }
                        }
                        Sh::Ps if c == b'`' => {
                            let n = self.at(0)?;
                            if !(n == b'`' || n == b'"' || n == b'$') { return None; }
                            self.i += 1;
                            out.push(n);
                        }
                        _ => out.push(c),
                    }
                }
            } else if c == b'\\' && self.sh != Sh::Ps {
                let n = self.at(1)?;
                if n == b'\n' || (self.sh == Sh::Fish && n.is_ascii_alphanumeric()) { return None; }
                out.push(n);
                self.i += 2;
            } else if blank(c) || c == b'\n' {
                break;
            } else if c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.' || c == b'/' || c == b':' {
                out.push(c);
                self.i += 1;
            } else { return None; }
        }
        if self.i == start && !quoted { return None; }
        Some(out)
    }
    fn name(&mut self) -> Option<Vec<u8>> {
        let i = self.i;
        while self.at(0).is_some_and(|c| c.is_ascii_alphanumeric() || c == b'_') { self.i += 1; }
        if self.i == i { None } else { Some(self.s[i..self.i].to_vec()) }
    }
    fn eol(&mut self) -> Option<()> { self.sp(); match self.at(0) { None => Some(()), Some(b'\n') => { self.i += 1; Some(()) } _ => None } }
    /// The statements of the script; None if it is malformed or expands anything.
    pub fn script(mut self) -> Option<Vec<St>> {
        let mut v = Vec::new();
        loop {
            self.sp();
            match self.at(0) { None => return Some(v), Some(b'\n') => { self.i += 1; continue; } Some(b'#') => { while self.at(0).is_some_and(|c| c != b'\n') { self.i += 1; } continue; } _ => {} }
            let st = match self.sh {
                Sh::Bash => {
                    if self.lit("export ") { let n = self.name()?; if !self.lit("=") { return None; } St::Var(n, self.word_or_empty()?) }
                    else if self.lit("alias ") { let n = self.name()?; if !self.lit("=") { return None; } St::Alias(n, self.word_or_empty()?) }
                    else if self.lit("source ") || self.lit(". ") { self.sp(); St::Source(self.word()?) } else { return None; }
                }
                Sh::Fish => {
                    if self.lit("set -gx ") || self.lit("set -x ") { let n = self.name()?; if !self.sp() { return None; } St::Var(n, self.word()?) }
                    else if self.lit("alias ") { let n = self.name()?; if !self.lit("=") && !self.sp() { return None; } St::Alias(n, self.word()?) }
                    else if self.lit("source ") { self.sp(); St::Source(self.word()?) } else { return None; }
                }
                Sh::Ps => {
                    if self.lit("$env:") { let n = self.name()?; self.sp(); if !self.lit("=") { return None; } self.sp(); St::Var(n, self.word()?) }
                    else if self.lit("${env:") { let n = self.name()?; if !self.lit("}") { return None; } self.sp(); if !self.lit("=") { return None; } self.sp(); St::Var(n, self.word()?) }
                    else if self.lit("Set-Alias -Name ") { let n = self.word()?; self.sp(); if !self.lit("-Value ") { return None; } St::Alias(n, self.word()?) }
                    else if self.lit(". ") { self.sp(); St::Source(self.word()?) } else { return None; }
                }
            };
            self.eol()?;
            v.push(st);
        }
    }
    fn word_or_empty(&mut self) -> Option<Vec<u8>> { match self.at(0) { None | Some(b'\n') => Some(vec![]), _ => self.word() } }
}
