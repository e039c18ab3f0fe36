//! `--name value` arguments.
use std::collections::HashMap;
pub struct Args(HashMap<String, String>);
impl Args {
    pub fn get() -> Args {
        let mut m = HashMap::new();
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            let k = a.strip_prefix("--").unwrap_or_else(|| panic!("unexpected argument {a}")).to_string();
            m.insert(k, it.next().expect("argument value"));
        }
        Args(m)
    }
    pub fn str(&self, k: &str) -> String { self.0.get(k).unwrap_or_else(|| panic!("--{k} missing")).clone() }
    pub fn opt(&self, k: &str) -> Option<String> { self.0.get(k).cloned() }
    pub fn num(&self, k: &str, d: u64) -> u64 { self.0.get(k).map_or(d, |v| v.parse().expect("number")) }
}
