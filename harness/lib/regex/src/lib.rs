//! The real regex crate, except that compiling the same pattern again returns a clone of the
//! first result (a `Regex` is immutable and cheap to clone). Saves recompiling patterns on every path.
pub use real::*;
use std::cell::RefCell;
use std::ops::Deref;

#[derive(Clone)]
pub struct Regex(real::Regex);
thread_local! {
    static MEMO: RefCell<Vec<(String, real::Regex)>> = const { RefCell::new(Vec::new()) };
}
impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        let hit = MEMO.with(|m| m.borrow().iter().find(|e| e.0 == re).map(|e| e.1.clone()));
        if let Some(r) = hit { return Ok(Regex(r)); }
        let r = real::Regex::new(re)?;
        MEMO.with(|m| m.borrow_mut().push((re.to_string(), r.clone())));
        Ok(Regex(r))
    }
}
impl Deref for Regex {
    type Target = real::Regex;
    fn deref(&self) -> &real::Regex { &self.0 }
}
impl From<real::Regex> for Regex { fn from(r: real::Regex) -> Self { Regex(r) } }
impl std::fmt::Display for Regex { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::fmt::Debug for Regex { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::str::FromStr for Regex { type Err = Error; fn from_str(s: &str) -> Result<Self, Error> { Regex::new(s) } }
impl TryFrom<&str> for Regex { type Error = Error; fn try_from(s: &str) -> Result<Self, Error> { Regex::new(s) } }
impl TryFrom<String> for Regex { type Error = Error; fn try_from(s: String) -> Result<Self, Error> { Regex::new(&s) } }
