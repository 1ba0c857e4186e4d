//! Stand-in: main() is not run here.
use std::fmt;
#[derive(Debug)]
pub struct Fail;
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fail")
    }
}
pub struct Options;
pub struct Matches {
    pub free: Vec<String>,
}
impl Matches {
    pub fn opt_present(&self, _: &str) -> bool {
        false
    }
}
impl Options {
    pub fn new() -> Options {
        Options
    }
    pub fn optflag(&mut self, _: &str, _: &str, _: &str) -> &mut Options {
        self
    }
    pub fn parse<C: IntoIterator>(&self, _: C) -> Result<Matches, Fail> {
        Ok(Matches { free: vec![] })
    }
    pub fn usage(&self, s: &str) -> String {
        s.to_string()
    }
}
