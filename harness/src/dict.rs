//! Numbers and strings that the checked tree's sources contain and the pinned tree's do not (check.py, dictionary()):
//! they only steer the choice of inputs.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let read = || -> Option<Dict> {
            let t = std::fs::read_to_string(std::env::var("LH_DICT").ok()?).ok()?;
            let v: serde_json::Value = serde_json::from_str(&t).ok()?;
            Some(Dict {
                ints: v["ints"].as_array()?.iter().filter_map(|x| x.as_u64()).collect(),
                strs: v["strs"].as_array()?.iter()
                    .map(|s| s.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default())
                    .collect(),
            })
        };
        read().unwrap_or_default()
    })
}

impl Dict {
    pub fn is_empty(&self) -> bool {
        self.ints.is_empty() && self.strs.is_empty()
    }
    /// a number from the dictionary (or, without any, from the lengths of its strings)
    pub fn int(&self, r: u64) -> u64 {
        if self.ints.is_empty() {
            return self.strs.get(r as usize % self.strs.len().max(1)).map(|s| s.len() as u64).unwrap_or(0);
        }
        self.ints[r as usize % self.ints.len()]
    }
    /// a string from the dictionary (or, without any, a number's bytes)
    pub fn str(&self, r: u64) -> Vec<u8> {
        if self.strs.is_empty() {
            let d = self.int(r);
            return if d < 256 { vec![d as u8] } else { d.to_le_bytes().iter().copied().take_while(|b| *b != 0).collect() };
        }
        self.strs[r as usize % self.strs.len()].clone()
    }
    /// a length suggested by it, at least 1
    pub fn len(&self, r: u64) -> usize {
        let d = (self.int(r >> 4) % 20001) as usize;
        (match r % 6 {
            0 => d.saturating_sub(1),
            1 | 2 => d,
            3 | 4 => d + 1,
            _ => 2 * d,
        })
        .max(1)
    }
}
