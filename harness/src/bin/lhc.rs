//! The hash functions and the AES of pqcrypto-internals (C25); a program of its own, because it is the only one that needs them.
#[path = "../dict.rs"]
mod dict;
#[path = "../hash.rs"]
mod hash;
use pqcrypto_dilithium as _;
use std::collections::HashMap;

fn main() {
    let mut a = std::env::args().skip(1);
    let _ = a.next();
    let mut m: HashMap<String, String> = HashMap::new();
    while let (Some(k), Some(v)) = (a.next(), a.next()) {
        m.insert(k.trim_start_matches("--").to_string(), v);
    }
    hash::run(&m)
}
