//! Executes scenarios (behaviours of the specification) on the real code and records what was observable.
use crate::dict::dict;
use crate::sess::*;
use latke::PartyRole;
use crate::tape::{is_quirk, set_quirk, Dice};
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet};
use std::hash::Hasher;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ scenario
#[derive(Clone, Debug)]
pub enum Edit {
    Flip(usize),
    Splice {
        f: usize,
        s: usize,
        n: usize,
        g: usize,
    },
    /// some bytes of field f replaced by the bytes at the same place of another message
    Part {
        f: usize,
        s: usize,
        n: usize,
    },
    Trunc,
    Ext,
}

#[derive(Clone, Debug)]
pub enum MsgRef {
    Empty,
    /// random bytes, not derived from any message
    Rand,
    Msg { s: usize, n: usize, ed: Vec<Edit> },
}

#[derive(Clone, Debug)]
pub enum Act {
    New(Map<String, Value>),
    Run {
        s: usize,
        m: MsgRef,
        ev: Vec<Edit>,
    },
    Sim(usize),
    Fin(usize),
}

pub struct Scenario {
    pub acts: Vec<Act>,
    pub raw: Value,
    pub x: usize,
    pub thr: bool,
    pub ml: [usize; 3],
}

fn edits(v: &Value) -> Vec<Edit> {
    let mut out = vec![];
    for e in v.as_array().map(|a| &a[..]).unwrap_or(&[]) {
        let f = e["f"].as_u64().unwrap_or(0) as usize;
        out.push(match e["t"].as_str().unwrap() {
            "flip" => Edit::Flip(f),
            "spl" => Edit::Splice {
                f,
                s: e["s"].as_u64().unwrap() as usize,
                n: e["n"].as_u64().unwrap() as usize,
                g: e["g"].as_u64().unwrap() as usize,
            },
            "part" => Edit::Part {
                f,
                s: e["s"].as_u64().unwrap() as usize,
                n: e["n"].as_u64().unwrap() as usize,
            },
            "trunc" => Edit::Trunc,
            "ext" => Edit::Ext,
            x => panic!("HARNESS edit {x}"),
        })
    }
    out
}

pub fn parse(line: &str) -> Scenario {
    let v: Value = serde_json::from_str(line).expect("HARNESS scenario json");
    let mut acts = vec![];
    for a in v["acts"].as_array().expect("HARNESS acts") {
        let s = a["s"].as_u64().unwrap_or(0) as usize;
        acts.push(match a["a"].as_str().unwrap() {
            "new" => Act::New(a["p"].as_object().unwrap().clone()),
            "run" => Act::Run {
                s,
                m: match a["m"]["t"].as_str().unwrap() {
                    "e" => MsgRef::Empty,
                    "r" => MsgRef::Rand,
                    "m" => MsgRef::Msg {
                        s: a["m"]["s"].as_u64().unwrap() as usize,
                        n: a["m"]["n"].as_u64().unwrap() as usize,
                        ed: edits(&a["m"]["ed"]),
                    },
                    x => panic!("HARNESS msgref {x}"),
                },
                ev: edits(&a["ev"]),
            },
            "sim" => Act::Sim(s),
            "fin" => Act::Fin(s),
            x => panic!("HARNESS act {x}"),
        })
    }
    let ml = v["ml"]
        .as_array()
        .map(|a| {
            let mut o = [32usize; 3];
            for (i, x) in a.iter().enumerate() {
                o[i] = x.as_u64().unwrap() as usize
            }
            o
        })
        .unwrap_or([32; 3]);
    Scenario {
        acts,
        x: v["x"].as_u64().unwrap_or(1) as usize,
        thr: v["thr"].as_u64().unwrap_or(0) != 0,
        ml,
        raw: v["acts"].clone(),
    }
}

// ------------------------------------------------------------------ concrete values
/// Bytes for the small integers of the specification: equal numbers, equal bytes; different numbers, different bytes,
/// but often as similar as can be.
pub struct Values {
    seed: u64,
    style: u64,
    /// use the dictionary
    dict: bool,
    ids: HashMap<u64, [u8; 32]>,
    ssids: HashMap<u64, [u8; 32]>,
    pws: HashMap<u64, Vec<u8>>,
}

fn sub_rng(seed: u64, tag: &str, k: u64) -> StdRng {
    let mut s = [0u8; 32];
    for i in 0..4u8 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u64(seed);
        h.write(tag.as_bytes());
        h.write_u64(k);
        h.write_u8(i);
        s[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    StdRng::from_seed(s)
}

impl Values {
    pub fn new(seed: u64, style: u64) -> Self {
        Values {
            seed,
            style,
            dict: style != 0 && !dict().is_empty() && (seed >> 3) % 3 == 0,
            ids: HashMap::new(),
            ssids: HashMap::new(),
            pws: HashMap::new(),
        }
    }

    fn fixed(&self, tag: &str, k: u64, st: u64) -> [u8; 32] {
        let mut r = sub_rng(self.seed, tag, 0);
        let mut base = [0u8; 32];
        r.fill_bytes(&mut base);
        let pos = r.gen_range(0..256usize);
        let mut v = base;
        match st {
            1 => {
                // differ in one bit
                if k > 1 {
                    let p = (pos + 83 * k as usize) % 256;
                    v[p / 8] ^= 1 << (p % 8)
                }
            }
            2 => {
                // extremes
                v = [0; 32];
                match k {
                    0 | 1 => {}
                    2 => v = [0xff; 32],
                    3 => v[31] = 1,
                    4 => v[0] = 1,
                    _ => v[15] = k as u8,
                }
            }
            3 => {
                // equal to other namespaces (tag ignored)
                let mut r = sub_rng(self.seed, "shared", k);
                r.fill_bytes(&mut v);
            }
            4 => {
                // permutations of the same bytes
                if k > 1 {
                    v.rotate_left(k as usize % 32)
                }
                if k == 3 {
                    v = base;
                    v.reverse()
                }
            }
            5 => {
                // same suffix / same prefix
                if k % 2 == 0 {
                    v[0] = v[0].wrapping_add(k as u8)
                } else if k > 1 {
                    v[31] = v[31].wrapping_add(k as u8)
                }
            }
            6 => {
                // text, zero padded
                v = [0; 32];
                let t = format!("user{}", "x".repeat((k as usize * 3) % 20));
                v[..t.len()].copy_from_slice(t.as_bytes());
            }
            8 => {
                // text in another case
                v = [0; 32];
                let t = b"alice.smith@example.com";
                v[..t.len()].copy_from_slice(t);
                let mut k = k.wrapping_sub(1);
                for c in v.iter_mut() {
                    if c.is_ascii_alphabetic() {
                        if k & 1 == 1 {
                            *c ^= 0x20
                        }
                        k >>= 1
                    }
                }
            }
            7 => {
                // same first half / same second half
                let mut r = sub_rng(self.seed, "half", k);
                if pos % 2 == 0 {
                    r.fill_bytes(&mut v[16..])
                } else {
                    r.fill_bytes(&mut v[..16])
                }
            }
            _ => {
                let mut r = sub_rng(self.seed, tag, k);
                r.fill_bytes(&mut v)
            }
        }
        v
    }

    fn from_dict(&self, tag: &str, k: u64) -> [u8; 32] {
        let mut r = sub_rng(self.seed, tag, 0);
        let (a, b, kind) = (r.next_u64(), r.next_u64(), r.gen_range(0..6u8));
        let d = dict().int(a);
        let mut base = [0u8; 32];
        r.fill_bytes(&mut base);
        let mut v = base;
        let mut rk = sub_rng(self.seed, tag, 1000 + k);
        match kind {
            0 | 1 => {
                // text, padded; the others differ a little, or are other texts
                v = [if kind == 0 { 0 } else { base[0] }; 32];
                let t = dict().str(if b % 2 == 0 { a } else { a.wrapping_add(k) });
                let n = t.len().min(32);
                v[..n].copy_from_slice(&t[..n]);
                if k > 1 && b % 4 < 2 {
                    v[31 - k as usize % 31] ^= k as u8
                }
            }
            2 => rk.fill_bytes(&mut v[d as usize % 32..]), // equal up to place d
            3 => rk.fill_bytes(&mut v[..d as usize % 33]), // equal from place d
            4 => {
                // the first or last byte is d
                rk.fill_bytes(&mut v);
                v[if b % 2 == 0 { 0 } else { 31 }] = d as u8
            }
            _ => {
                // full of d
                v = [d as u8; 32];
                if k > 1 {
                    v[rk.gen_range(0..32usize)] = k as u8 ^ d as u8
                }
            }
        }
        v
    }

    fn pw_from_dict(&self, k: u64) -> Vec<u8> {
        let mut r = sub_rng(self.seed, "pwd", 0);
        let (a, b, kind) = (r.next_u64(), r.next_u64(), r.gen_range(0..8u8));
        let d = (dict().int(a) % 20001) as usize;
        let kk = k as usize;
        let mut base = vec![0u8; 2 * d + 300];
        r.fill_bytes(&mut base);
        let mut rk = sub_rng(self.seed, "pwd", 1000 + k);
        match kind {
            0 => base[..(d + kk).saturating_sub(2)].to_vec(), // lengths about d, prefixes of each other
            1 | 2 => {
                // one length above d; equal up to d, or different only there
                let n = d + 1 + (b % 40) as usize;
                let mut v = base[..n].to_vec();
                if kind == 1 {
                    rk.fill_bytes(&mut v[d..])
                } else if k > 1 {
                    v[if b % 2 == 0 { d } else { d.saturating_sub(1) }] ^= k as u8
                }
                v
            }
            3 => {
                // the text and its neighbours
                let mut v = dict().str(a);
                match k {
                    0 | 1 => {}
                    2 => v.push(b' '),
                    3 => v.insert(0, 0),
                    _ => v.extend(&base[..kk]),
                }
                v
            }
            4 => {
                // another with the text in it
                let mut v = base[..8 + kk].to_vec();
                let at = b as usize % (v.len() + 1);
                let t = dict().str(a.wrapping_add(b % 2 * k));
                v.splice(at..at, t);
                v
            }
            5 => vec![d as u8; kk + (b % 3) as usize],
            6 => {
                let mut v = base[..10 + b as usize % 30].to_vec();
                for x in v.iter_mut().skip(kk % 3).step_by(3) {
                    *x = d as u8
                }
                if k > 1 {
                    v[0] = v[0].wrapping_add(k as u8)
                }
                v
            }
            _ => {
                // a multiple of d
                let mut v = base[..(2 * d).max(1) + (b % 2) as usize].to_vec();
                if k > 1 {
                    let n = v.len();
                    v[rk.gen_range(0..n)] ^= k as u8
                }
                v
            }
        }
    }

    fn fixed_distinct(&mut self, which: u8, k: u64) -> [u8; 32] {
        let m = if which == 0 { &self.ids } else { &self.ssids };
        if let Some(v) = m.get(&k) {
            return *v;
        }
        let tag = if which == 0 { "id" } else { "ssid" };
        let st = if which == 0 {
            self.style % 9
        } else {
            (self.style / 9) % 9
        };
        let mut v = if self.dict && self.style % 2 == which as u64 % 2 {
            self.from_dict(tag, k)
        } else {
            self.fixed(tag, k, st)
        };
        let mut salt = 0u64;
        while m.iter().any(|(_, w)| *w == v) || v == MOCK_ID {
            salt += 1;
            v = self.fixed(tag, k + 1000 * salt, 0);
        }
        if which == 0 {
            self.ids.insert(k, v);
        } else {
            self.ssids.insert(k, v);
        }
        v
    }

    pub fn id(&mut self, k: u64) -> [u8; 32] {
        self.fixed_distinct(0, k)
    }
    pub fn ssid(&mut self, k: u64) -> [u8; 32] {
        self.fixed_distinct(1, k)
    }
    pub fn seed32(&self, tag: &str, k: u64) -> [u8; 32] {
        let mut v = [0u8; 32];
        sub_rng(self.seed, tag, k).fill_bytes(&mut v);
        v
    }
    pub fn id_index(&self, b: &[u8; 32]) -> i64 {
        if *b == MOCK_ID {
            return 99;
        }
        self.ids
            .iter()
            .find(|(_, v)| *v == b)
            .map(|(k, _)| *k as i64)
            .unwrap_or(-1)
    }

    pub fn pw(&mut self, k: u64) -> Vec<u8> {
        if let Some(v) = self.pws.get(&k) {
            return v.clone();
        }
        let st = (self.style / 81) % 14;
        let mut r = sub_rng(self.seed, "pw", 0);
        let len = [1usize, 5, 8, 12, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000]
            [r.gen_range(0..16)];
        let mut base = vec![0u8; len];
        r.fill_bytes(&mut base);
        let kk = k as usize;
        let mut v = base.clone();
        match st {
            1 => {
                if k > 1 {
                    let p = r.gen_range(0..len * 8) + 83 * kk;
                    v[(p / 8) % len] ^= 1 << (p % 8)
                }
            }
            2 => v = vec![0u8; kk - 1],      // empty, one zero byte, ...
            3 => {
                // trailing NULs
                for _ in 1..k {
                    v.push(0)
                }
            }
            4 => {
                // prefixes
                if k > 1 {
                    v.extend((0..kk).map(|i| base[i % len] ^ 0x5a))
                }
            }
            5 => {
                // text: case, spaces, newline
                v = match k {
                    1 => b"correct horse".to_vec(),
                    2 => b"Correct horse".to_vec(),
                    3 => b"correct horse ".to_vec(),
                    _ => format!("correct horse{}", "\n".repeat(kk)).into_bytes(),
                }
            }
            6 => {
                // leading bytes
                if k > 1 {
                    let mut w = vec![if k == 2 { 0 } else { b' ' }; kk - 1];
                    w.extend(&base);
                    v = w
                }
            }
            7 => {
                // the hash of the other
                if k > 1 {
                    let mut h = base.clone();
                    for _ in 1..k {
                        use sha3::{Digest, Sha3_256};
                        let mut d = Sha3_256::default();
                        d.input(&h);
                        h = d.result().to_vec();
                    }
                    v = h
                }
            }
            8 => {
                // repeated content
                if k > 1 {
                    let mut w = vec![];
                    for _ in 0..k {
                        w.extend(&base)
                    }
                    v = w
                }
            }
            9 => v = vec![0xff; kk - 1],
            10 => {
                // invalid / equivalent text encodings
                v = match k {
                    1 => vec![0xc3, 0xa9],
                    2 => vec![0x65, 0xcc, 0x81],
                    3 => vec![0xe9],
                    _ => vec![0xff, 0xfe, k as u8],
                }
            }
            11 => {
                // last byte differs in a long password
                v = vec![0x61; 200 + len];
                *v.last_mut().unwrap() = 0x61 + (kk as u8 % 100);
            }
            12 => {
                if k > 1 {
                    v.reverse();
                    if v == base {
                        v.push(k as u8)
                    }
                }
            }
            _ => {
                let mut r = sub_rng(self.seed, "pw", k);
                let l = r.gen_range(0..100);
                v = vec![0; l];
                r.fill_bytes(&mut v)
            }
        }
        if self.dict {
            v = self.pw_from_dict(k)
        }
        let mut salt = 0u64;
        while self.pws.iter().any(|(_, w)| *w == v) {
            salt += 1;
            let mut r = sub_rng(self.seed, "pwx", k + 1000 * salt);
            v = vec![0; 20];
            r.fill_bytes(&mut v)
        }
        self.pws.insert(k, v.clone());
        v
    }
}

// ------------------------------------------------------------------ execution
pub type Tok = u128;

pub fn tok(b: &[u8]) -> Tok {
    let mut h1 = std::collections::hash_map::DefaultHasher::new();
    h1.write_u8(1);
    h1.write(b);
    let mut h2 = std::collections::hash_map::DefaultHasher::new();
    h2.write_u8(2);
    h2.write(b);
    ((h1.finish() as u128) << 64) | h2.finish() as u128
}

#[derive(Default, Clone)]
pub struct Obs {
    pub r: &'static str,
    pub len: i64,
    pub ft: Vec<Tok>,
    pub ks: Vec<Tok>,
    /// eight bytes of keystream that were used before, anywhere in this execution
    pub again: bool,
    pub leak: bool,
    pub mode: &'static str,
    pub done: &'static str,
    pub key: Option<Tok>,
    pub id: i64,
    pub stable: bool,
}

struct Live {
    s: Option<Box<dyn Sess>>,
    spec: Spec,
    /// messages (None: simulated)
    out: Vec<Option<Vec<u8>>>,
    inn: Vec<Vec<u8>>,
}

fn kind(sp: &Spec, n: usize) -> &'static str {
    // n: 1-based index among the outputs of the session
    let i = sp.role == PartyRole::Initiator;
    let pk = |n: usize| -> &'static str {
        match (&sp.pt[..], i, n) {
            ("kc", true, 1) => "kc1",
            ("kc", false, 1) => "kc2",
            ("kc", true, 2) => "kc3",
            ("ck", true, 1) => "ck1",
            ("ck", false, 1) => "ck2",
            ("cp", true, 1) => "cp1",
            ("cp", false, 1) => "cp2",
            ("mp", true, 1) => "mp1",
            ("mp", false, 1) => "mp2",
            _ => "",
        }
    };
    match &sp.lay[..] {
        "pake" => pk(n),
        "ibke" => inner_kind(&sp.it, i, n),
        "chip" => {
            if n == 1 {
                if i {
                    "ch1"
                } else {
                    "ch2"
                }
            } else {
                pk(n - 1)
            }
        }
        _ => {
            let k = pk(n);
            if k.is_empty() {
                "ct"
            } else {
                k
            }
        }
    }
}

fn inner_kind(it: &str, i: bool, n: usize) -> &'static str {
    match (it, i, n) {
        ("fg", true, 1) => "fg1",
        ("fg", false, 1) => "fg2",
        ("fg", true, 2) => "fg3",
        ("hm", true, 1) => "hm1",
        ("hm", false, 1) => "hm2",
        ("hm", true, 2) => "hm3",
        ("sd", true, 1) => "sd1",
        ("sd", false, 1) => "sd2",
        ("se" | "sq", true, 1) => "sg1",
        ("se" | "sq", false, 1) => "sg2",
        ("se" | "sq", _, 2) => "ae",
        _ => "",
    }
}

/// fields that must be new in every message
fn fresh_fields(kind: &str) -> &'static [usize] {
    match kind {
        "kc1" => &[],
        "kc2" => &[1, 2],
        "cp1" => &[1, 2],
        "fg1" => &[3],
        "fg2" => &[3, 4],
        "hm1" => &[1],
        "hm2" => &[1, 2],
        "sd1" | "sd2" => &[1, 2],
        "sg1" | "sg2" => &[1, 2],
        "ch1" | "ch2" => &[2],
        _ => &[],
    }
}

fn frange(kind: &str, f: usize, len: usize) -> Option<(usize, usize)> {
    let l = layout(kind);
    if l.iter().sum::<usize>() != len || f == 0 || f > l.len() {
        return None;
    }
    let a: usize = l[..f - 1].iter().sum();
    Some((a, a + l[f - 1]))
}

/// Turns symbolic edits into byte edits of message `m`
fn concretize(
    m: &[u8],
    knd: &str,
    eds: &[Edit],
    get: &dyn Fn(usize, usize) -> Option<(Vec<u8>, &'static str)>,
    rep: u64,
    seed: u64,
    r: &mut StdRng,
) -> Option<Vec<InnerEdit>> {
    let mut out = vec![];
    for e in eds {
        match e {
            Edit::Flip(f) => {
                let (a, b) = frange(knd, *f, m.len()).unwrap_or((0, m.len()));
                if b == a {
                    return None;
                }
                let w = (b - a) as u64;
                let f = &m[a..b];
                // the first repetitions: certain bits; then every scenario something else
                let kind = if rep < 2 { 0 } else { (seed >> 23).wrapping_add(rep) % 16 };
                match kind {
                    6 | 15 => {
                        // the case of a letter, if there is one
                        let l: Vec<usize> = (0..f.len()).filter(|i| f[*i].is_ascii_alphabetic()).collect();
                        let o = if l.is_empty() { r.gen_range(0..f.len()) } else { l[r.gen_range(0..l.len())] };
                        out.push(InnerEdit::Xor(a + o, 0x20))
                    }
                    11 => {
                        // two bytes changed alike
                        let (o, o2) = (r.gen_range(0..f.len()), r.gen_range(0..f.len()));
                        let x = r.gen_range(1..=255u8);
                        out.push(InnerEdit::Xor(a + o, x));
                        if o2 != o {
                            out.push(InnerEdit::Xor(a + o2, x));
                        }
                    }
                    12 => {
                        // the same bytes in another order
                        let mut v = f.to_vec();
                        match r.gen_range(0..3) {
                            0 => v.reverse(),
                            1 => v.rotate_left(1),
                            _ => {
                                let o = r.gen_range(0..v.len());
                                let o2 = (o + 1) % v.len();
                                v.swap(o, o2)
                            }
                        }
                        if v == f {
                            v[0] ^= 1
                        }
                        out.push(InnerEdit::Put(a, v))
                    }
                    13 => {
                        // a run of bytes at either end
                        let n = r.gen_range(1..=f.len());
                        let at = if r.gen() { 0 } else { f.len() - n };
                        let mut v = f.to_vec();
                        r.fill_bytes(&mut v[at..at + n]);
                        if v == f {
                            v[at] ^= 1
                        }
                        out.push(InnerEdit::Put(a, v))
                    }
                    7 => {
                        let mut v = vec![0u8; b - a];
                        r.fill_bytes(&mut v);
                        if v == m[a..b] {
                            v[0] ^= 1
                        }
                        out.push(InnerEdit::Put(a, v))
                    }
                    9 => {
                        let mut v = vec![0u8; b - a];
                        if v == m[a..b] {
                            v[0] = 1
                        }
                        out.push(InnerEdit::Put(a, v))
                    }
                    10 => {
                        // two bits
                        let o = (rep + seed) % w;
                        let o2 = r.gen_range(0..w);
                        let (b1, b2) = (r.gen_range(0..8), r.gen_range(0..8));
                        out.push(InnerEdit::Xor(a + o as usize, 1 << b1));
                        if o2 != o {
                            out.push(InnerEdit::Xor(a + o2 as usize, 1 << b2));
                        }
                    }
                    _ => {
                        // sweep the bytes, random bit; favour the last and first byte in the first repetitions
                        let o = match rep {
                            0 => w - 1,
                            1 => 0,
                            // where a ciphertext has its nonce and the start of its tag
                            2 if w > 44 => w - 44,
                            3 if w > 44 => w - 32,
                            4 if w > 44 => w - 33,
                            5 if w > 44 => w - 45,
                            _ => (rep + seed) % w,
                        };
                        let bit = match (rep, seed % 3) {
                            (0, 0) => 7,
                            (0, 1) => 0,
                            _ => r.gen_range(0..8),
                        };
                        out.push(InnerEdit::Xor(a + o as usize, 1 << bit))
                    }
                }
            }
            Edit::Splice { f, s, n, g } => {
                let (src, k2) = get(*s, *n)?;
                let (a, b) = frange(knd, *f, m.len())?;
                let (c, d) = frange(k2, *g, src.len())?;
                if b - a != d - c {
                    return None;
                }
                out.push(InnerEdit::Put(a, src[c..d].to_vec()))
            }
            Edit::Part { f, s, n } => {
                let (src, _) = get(*s, *n)?;
                let (a, b) = frange(knd, *f, m.len()).unwrap_or((0, m.len()));
                let b = b.min(src.len());
                let w = b - a;
                if w < 2 {
                    return None;
                }
                // tail and head pieces (tag, nonce and tag, body), halves, arbitrary pieces
                let (x, y) = match rep {
                    0 if w > 44 => (b - 32, b),
                    1 if w > 44 => (b - 44, b - 32),
                    2 if w > 44 => (b - 44, b),
                    3 if w > 44 => (a, b - 44),
                    4 => (a, a + w / 2),
                    5 => (a + w / 2, b),
                    _ => {
                        let x = r.gen_range(a..b);
                        (x, r.gen_range(x + 1..=b))
                    }
                };
                let mut new = m.to_vec();
                new[x..y].copy_from_slice(&src[x..y]);
                if new == m || new == src {
                    // no difference: flip a bit instead
                    out.push(InnerEdit::Xor(x, 1))
                } else {
                    out.push(InnerEdit::Put(x, src[x..y].to_vec()))
                }
            }
            Edit::Trunc => {
                if m.len() < 2 {
                    return None;
                }
                let n = match rep {
                    0 => m.len() - 1,
                    1 => m.len() / 2,
                    2 => 1,
                    _ => 1 + (rep.wrapping_add(seed) as usize).wrapping_mul(7) % (m.len() - 1),
                };
                out.push(InnerEdit::Trunc(n.max(1)))
            }
            Edit::Ext => {
                let v = match rep {
                    0 => vec![0u8],
                    1 => vec![r.gen::<u8>()],
                    2 => m.to_vec(),
                    3 => vec![0u8; 32],
                    _ => {
                        let mut v = vec![0u8; r.gen_range(1..100)];
                        r.fill_bytes(&mut v);
                        v
                    }
                };
                out.push(InnerEdit::Ext(v))
            }
        }
    }
    Some(out)
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    needle.len() <= hay.len() && hay.windows(needle.len()).any(|w| w == needle)
}

fn num(p: &Map<String, Value>, k: &str) -> u64 {
    p.get(k).and_then(|v| v.as_u64()).unwrap_or(0)
}

/// run `f` here or on a thread of its own
fn maybe_thread<T: Send>(thr: bool, f: impl FnOnce() -> T + Send) -> T {
    if thr {
        let q = is_quirk();
        let f = move || {
            set_quirk(q);
            f()
        };
        std::thread::scope(|s| s.spawn(f).join().expect("HARNESS thread"))
    } else {
        f()
    }
}

pub fn execute(sc: &Scenario, seed: u64, rep: u64) -> Vec<Obs> {
    // the checked build has time for few repetitions: none of them with plain values
    let rep = if cfg!(debug_assertions) && rep == 0 { 3 + seed % 1000 } else { rep };
    let mut vals = Values::new(seed, if rep == 0 { 0 } else { seed >> 7 });
    let mut r = Dice::new(sub_rng(seed, "rng", 0), seed >> 5 & 3 == 1);
    set_quirk(seed >> 7 & 3 == 1);
    let mut er = sub_rng(seed, "edit", 0);
    let mut creds = Creds::default();
    let mut live: Vec<Live> = vec![];
    let mut obs: Vec<Obs> = vec![];
    let thr = sc.thr;
    // fix the values in a stable order
    for k in 1..=4 {
        vals.id(k);
        vals.ssid(k);
        vals.pw(k);
    }
    let nact = sc.acts.len();
    let mut fin_done: Vec<usize> = vec![];
    let mut streams: HashSet<[u8; 8]> = HashSet::new();
    for ai in 0..nact + 100 {
        let act = if ai < nact {
            sc.acts[ai].clone()
        } else {
            let i = ai - nact + 1;
            if i > live.len() {
                break;
            }
            fin_done.push(i);
            Act::Fin(i)
        };
        match act {
            Act::New(p) => {
                let st = |k: &str| {
                    p.get(k)
                        .and_then(|v| v.as_str())
                        .unwrap_or("")
                        .to_string()
                };
                let (pw, id, cr, cg, cu, us, mk) = (
                    num(&p, "pw"),
                    num(&p, "id"),
                    num(&p, "cr"),
                    num(&p, "cg"),
                    num(&p, "cu"),
                    num(&p, "us"),
                    num(&p, "mk"),
                );
                let (ci, fi, fu) = (num(&p, "ci"), num(&p, "fi"), num(&p, "fu"));
                let w = num(&p, "w") as i64;
                let lay = st("lay");
                let spec = Spec {
                    role: if st("role") == "I" {
                        PartyRole::Initiator
                    } else {
                        PartyRole::Responder
                    },
                    pt: st("pt"),
                    it: st("it"),
                    ssid: vals.ssid(num(&p, "ssid").max(1)),
                    pw: vals.pw(pw.max(1)),
                    id: vals.id(id.max(1)),
                    peer: match num(&p, "peer") {
                        0 => None,
                        k => Some(vals.id(k)),
                    },
                    mk: vals.seed32("centre", mk),
                    cg: if lay == "latke" && cg == 0 {
                        None
                    } else {
                        Some(vals.seed32("centre", cg))
                    },
                    cu: vals.seed32("user", cu),
                    us: vals.seed32("user", us),
                    plain_keys: lay == "latke" && cg == 0 && cu == us && (ci == 0 || ci == id) && fi + fu == 0 && w == 0,
                    ci: if ci == 0 || ci == id { None } else { Some(vals.id(ci)) },
                    fi: if fi == 0 { None } else { Some(vals.id(fi)) },
                    fu: if fu == 0 { None } else { Some(vals.seed32("user", fu)) },
                    w,
                    cred: format!("{cr}/{pw}/{id}/{cg}/{cu}/{us}/{ci}/{fi}/{fu}/{w}"),
                    lay,
                };
                let ml = sc.ml;
                MOCK_LENS.with(|l| *l.borrow_mut() = ml);
                let made = catch_unwind(AssertUnwindSafe(|| make(&spec, &mut creds, &mut r)));
                let ok = made.is_ok();
                let gave_up = GAVE_UP.with(|g| std::mem::take(&mut *g.borrow_mut()));
                live.push(Live {
                    s: made.ok(),
                    spec,
                    out: vec![],
                    inn: vec![],
                });
                obs.push(Obs {
                    r: if gave_up { "na" } else if ok { "ok" } else { "rej" },
                    stable: true,
                    done: "na",
                    mode: "na",
                    ..Default::default()
                });
                continue;
            }
            Act::Run { s, m, ev } => {
                let mut o = Obs {
                    r: "skip",
                    stable: true,
                    done: "na",
                    mode: "na",
                    ..Default::default()
                };
                let li = s - 1;
                if live.get(li).map(|l| l.s.is_some()) != Some(true) {
                    obs.push(o);
                    continue;
                }
                // the incoming message
                let msg: Option<Vec<u8>> = match &m {
                    MsgRef::Empty => Some(vec![]),
                    MsgRef::Rand => {
                        // none of these is the length of a genuine message
                        let n = [
                            1usize, 44, 43, 45, 12, 33 - 2, 7, 61, 99, 1001, 2000, 3, 191, 513, 2,
                        ][(rep % 15) as usize];
                        let mut v = vec![0u8; n];
                        er.fill_bytes(&mut v);
                        Some(v)
                    }
                    MsgRef::Msg { s: ss, n, ed } => (|| {
                        let src = live.get(ss - 1)?;
                        let mut v = src.out.get(n - 1)?.clone()?;
                        let k = kind(&src.spec, *n);
                        let get = |s: usize, n: usize| {
                            let l = live.get(s - 1)?;
                            Some((l.out.get(n - 1)?.clone()?, kind(&l.spec, n)))
                        };
                        let eds = concretize(&v, k, ed, &get, rep, seed, &mut er)?;
                        apply_edits(&mut v, &eds);
                        Some(v)
                    })(),
                };
                let msg = match msg {
                    Some(m) => m,
                    None => {
                        obs.push(o);
                        continue;
                    }
                };
                let evil_rng_seed = seed ^ 0x55;
                let mut l = live[li].s.take().unwrap();
                // evil inner edits are concretized lazily: they need the plaintext, so pass a probe first
                let evil_spec: Vec<Edit> = ev.clone();
                let inner_logs: Vec<(Vec<Vec<u8>>, String, bool)> = live
                    .iter()
                    .map(|x| {
                        (
                            x.inn.clone(),
                            x.spec.it.clone(),
                            x.spec.role == PartyRole::Initiator,
                        )
                    })
                    .collect();
                let my_kind = inner_kind(
                    &live[li].spec.it,
                    live[li].spec.role == PartyRole::Initiator,
                    live[li].inn.len() + 1,
                );
                let ml = sc.ml;
                let (l, res, spy) = {
                    let rr = &mut r;
                    let msg = &msg;
                    maybe_thread(thr, move || {
                        MOCK_LENS.with(|l| *l.borrow_mut() = ml);
                        let evil: Option<Box<dyn FnOnce(&mut Vec<u8>) + Send>> = if evil_spec.is_empty() {
                            None
                        } else {
                            Some(Box::new(move |m: &mut Vec<u8>| {
                                let get = |s: usize, n: usize| {
                                    let (inn, it, i) = inner_logs.get(s - 1)?;
                                    Some((inn.get(n - 1)?.clone(), inner_kind(it, *i, n)))
                                };
                                let mut e2 = sub_rng(evil_rng_seed, "evil", 0);
                                let eds =
                                    concretize(m, my_kind, &evil_spec, &get, rep, seed, &mut e2);
                                apply_edits(m, &eds.expect("HARNESS evil edit"));
                            }))
                        };
                        SPY.with(|x| {
                            *x.borrow_mut() = SpyLog {
                                evil,
                                ..Default::default()
                            }
                        });
                        let res = catch_unwind(AssertUnwindSafe(|| l.run(rr, msg)));
                        let spy = SPY.with(|x| std::mem::take(&mut *x.borrow_mut()));
                        (l, res, spy)
                    })
                };
                let lv = &mut live[li];
                lv.s = Some(l);
                let latke = lv.spec.lay == "latke";
                if let Some(p) = &spy.plain {
                    lv.inn.push(p.clone());
                }
                let mut ct_plain: Option<Vec<u8>> = None;
                if latke {
                    o.mode = if spy.inner_runs > 0 {
                        "real"
                    } else if spy.simmed {
                        "sim"
                    } else {
                        "no"
                    };
                    ct_plain = spy
                        .plain
                        .clone()
                        .or_else(|| spy.sim.map(|n| vec![0u8; n]));
                }
                match res {
                    Ok(Out::Some(w)) => {
                        o.r = "some";
                        o.len = w.len() as i64;
                        lv.out.push(Some(w.clone()));
                        let n = lv.out.len();
                        let k = kind(&lv.spec, n);
                        o.ft.push(tok(&w));
                        for f in fresh_fields(k) {
                            if let Some((a, b)) = frange(k, *f, w.len()) {
                                o.ft.push(tok(&w[a..b]))
                            }
                        }
                        if latke {
                            // what is inside must be as new as if it were sent openly
                            if let (Some(inner), 0) = (&spy.orig, lv.spec.w) {
                                let k = inner_kind(&lv.spec.it, lv.spec.role == PartyRole::Initiator, lv.inn.len());
                                for f in fresh_fields(k) {
                                    if let Some((a, b)) = frange(k, *f, inner.len()) {
                                        o.ft.push(tok(&inner[a..b]))
                                    }
                                }
                            }
                            if contains(&w, &lv.spec.id) {
                                o.leak = true
                            }
                            if let Some(p) = ct_plain {
                                if w.len() >= p.len() + 44 {
                                    o.ft.push(tok(&w[w.len() - 44..w.len() - 32]));
                                    o.ft.push(tok(&w[w.len() - 32..]));
                                }
                                for i in (0..p.len() / 16).take(8) {
                                    let mut b = [0u8; 16];
                                    for j in 0..16 {
                                        b[j] = p[i * 16 + j] ^ w.get(i * 16 + j).copied().unwrap_or(0)
                                    }
                                    o.ks.push(tok(&b));
                                }
                                let stream: Vec<u8> = p.iter().zip(&w).map(|(a, b)| a ^ b).collect();
                                for c in stream.windows(8) {
                                    if !streams.insert(c.try_into().unwrap()) {
                                        o.again = true
                                    }
                                }
                                let ws: HashSet<&[u8]> = w.windows(8).collect();
                                for c in p.chunks_exact(8) {
                                    if ws.contains(c) {
                                        o.leak = true
                                    }
                                }
                            }
                        }
                    }
                    Ok(Out::None) => o.r = "none",
                    Ok(Out::Rej) | Err(_) => o.r = "rej",
                }
                finish(&mut o, lv, &vals);
                obs.push(o);
            }
            Act::Sim(s) => {
                let mut o = Obs {
                    r: "skip",
                    stable: true,
                    done: "na",
                    mode: "na",
                    ..Default::default()
                };
                if live.get(s - 1).map(|l| l.s.is_some()) != Some(true) {
                    obs.push(o);
                    continue;
                }
                let lv = &mut live[s - 1];
                match catch_unwind(AssertUnwindSafe(|| lv.s.as_mut().unwrap().sim())) {
                    Ok(Ok(Some(n))) => {
                        o.r = "some";
                        o.len = n as i64;
                        lv.out.push(None);
                    }
                    Ok(Ok(None)) => o.r = "none",
                    _ => o.r = "rej",
                }
                finish(&mut o, lv, &vals);
                obs.push(o);
            }
            Act::Fin(s) => {
                let mut o = Obs {
                    r: "skip",
                    stable: true,
                    done: "na",
                    mode: "na",
                    ..Default::default()
                };
                if let Some(lv) = live.get_mut(s - 1) {
                    if lv.s.is_some() {
                        o.r = "fin";
                        finish(&mut o, lv, &vals);
                    }
                }
                obs.push(o);
            }
        }
    }
    obs
}

fn finish(o: &mut Obs, lv: &Live, vals: &Values) {
    let s = lv.s.as_ref().unwrap();
    o.done = match s.done() {
        None => "na",
        Some(true) => "y",
        Some(false) => "n",
    };
    let f = || {
        catch_unwind(AssertUnwindSafe(|| s.fin())).ok()
    };
    let (a, b) = (f(), f());
    o.stable = a == b;
    if let Some((id, k)) = a {
        o.key = Some(tok(&k));
        o.id = id.map(|i| vals.id_index(&i)).unwrap_or(0);
    }
}

// ------------------------------------------------------------------ batch
pub struct Interner {
    seen: HashMap<Tok, u64>,
}

/// Renames tokens: 1, 2, ... in order of first appearance in this run; -1 if it was ever seen in an earlier run
fn normalize(obs: &[Obs], run: u64, it: &mut Interner) -> String {
    let mut local: HashMap<Tok, i64> = HashMap::new();
    let mut nx = 0i64;
    let mut t = |x: Tok| -> i64 {
        match it.seen.get(&x) {
            Some(r) if *r != run => -1,
            _ => {
                it.seen.insert(x, run);
                *local.entry(x).or_insert_with(|| {
                    nx += 1;
                    nx
                })
            }
        }
    };
    let mut out = String::from("[");
    for (i, o) in obs.iter().enumerate() {
        let ft: Vec<i64> = o.ft.iter().map(|x| t(*x)).collect();
        let ks: Vec<i64> = o.ks.iter().map(|x| t(*x)).collect();
        let key = o.key.map(|x| t(x)).unwrap_or(0);
        if i > 0 {
            out.push(',')
        }
        out.push_str(
            &json!({"r": o.r, "len": o.len, "ft": ft, "ks": ks, "again": o.again, "leak": o.leak, "mode": o.mode, "done": o.done,
                    "key": key, "id": o.id, "stable": o.stable})
            .to_string(),
        );
    }
    out.push(']');
    out
}

fn lens_key(sp: &Map<String, Value>) -> String {
    let g = |k: &str| sp.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
    format!("{}/{}/{}", g("lay"), g("pt"), g("it"))
}

/// Lengths of the messages of an honest conversation, for every combination of protocols used
fn reference_lengths(scens: &[Scenario], seed: u64) -> Value {
    let mut tab = Map::new();
    for sc in scens {
        for a in &sc.acts {
            if let Act::New(p) = a {
                let k = lens_key(p);
                if tab.contains_key(&k) {
                    continue;
                }
                let mut best: (Vec<i64>, Vec<i64>) = (vec![], vec![]);
                for attempt in 0..3 {
                    let (i, rr) = honest_lengths(p, seed + attempt);
                    if i.len() + rr.len() > best.0.len() + best.1.len() {
                        best = (i, rr)
                    }
                }
                tab.insert(k, json!({"I": best.0, "R": best.1}));
            }
        }
    }
    Value::Object(tab)
}

fn honest_lengths(p: &Map<String, Value>, seed: u64) -> (Vec<i64>, Vec<i64>) {
    let mk = |role: &str, id: u64| {
        let mut q = p.clone();
        q.insert("role".into(), json!(role));
        q.insert("id".into(), json!(id));
        q.insert("cr".into(), json!(900 + id));
        q.insert("pw".into(), json!(1));
        q.insert("mk".into(), json!(1));
        q.insert(
            "cg".into(),
            json!(if p.get("lay").and_then(|v| v.as_str()) == Some("latke") { 0 } else { 1 }),
        );
        q.insert("cu".into(), json!(id));
        q.insert("us".into(), json!(id));
        q.insert("ssid".into(), json!(1));
        q.insert("ci".into(), json!(0));
        q.insert("fi".into(), json!(0));
        q.insert("fu".into(), json!(0));
        q.insert("w".into(), json!(0));
        q.insert(
            "peer".into(),
            json!(if p.get("lay").and_then(|v| v.as_str()) == Some("chip") { 3 - id } else { 0 }),
        );
        Act::New(q)
    };
    let sc0 = [mk("I", 1), mk("R", 2)];
    // drive it dynamically, one more action at a time
    let mut acts: Vec<Act> = sc0.to_vec();
    let mut lens = (vec![], vec![]);
    let mut cur = MsgRef::Empty;
    let mut turn = 1usize;
    let mut idle = 0;
    for _ in 0..14 {
        acts.push(Act::Run {
            s: turn,
            m: cur.clone(),
            ev: vec![],
        });
        let sc = Scenario {
            acts: acts.clone(),
            raw: Value::Null,
            x: 1,
            thr: false,
            ml: [32; 3],
        };
        let o = execute(&sc, seed, 0);
        let ob = &o[acts.len() - 1];
        match ob.r {
            "some" => {
                idle = 0;
                let v: &mut Vec<i64> = if turn == 1 { &mut lens.0 } else { &mut lens.1 };
                v.push(ob.len);
                cur = MsgRef::Msg {
                    s: turn,
                    n: v.len(),
                    ed: vec![],
                };
            }
            "none" => {
                idle += 1;
                cur = MsgRef::Empty;
                if idle > 1 || p.get("lay").and_then(|v| v.as_str()) != Some("latke") {
                    break;
                }
                if ob.done == "y" {
                    break;
                }
            }
            _ => break,
        }
        turn = 3 - turn;
    }
    lens
}

pub fn batch(args: &HashMap<String, String>) {
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let seed: u64 = get("seed", "1").parse().unwrap();
    let secs: f64 = get("secs", "20").parse().unwrap();
    let threads: usize = get("threads", "8").parse().unwrap();
    let maxrep: usize = get("maxrep", "1000000").parse().unwrap();
    let scens: Vec<Scenario> = std::io::BufReader::new(std::fs::File::open(&args["in"]).expect("HARNESS in"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| parse(&l))
        .collect();
    let mut w = BufWriter::new(std::fs::File::create(&args["out"]).expect("HARNESS out"));
    crate::watch::init(args.get("watch"), threads);
    crate::watch::begin(0, 0, 0);
    let lens = reference_lengths(&scens, seed);
    crate::watch::end(0);
    let t0 = Instant::now();
    let mut it = Interner {
        seen: HashMap::new(),
    };
    let mut dedupe: HashMap<(usize, String), (u64, u64)> = HashMap::new();
    let mut order: Vec<(usize, String)> = vec![];
    let mut run_no = 0u64;
    let mut total = 0u64;
    let mut events = 0u64;
    let mut gave_up = 0u64;
    // units of work: (scenario, repetition), pass by pass; the first pass is always completed
    let mut pass = 0usize;
    let mut pos = 0usize;
    // or, to replay it, one repetition of what was scenario number "as"
    let single = args.contains_key("as");
    let shift: usize = get("as", "0").parse().unwrap();
    let rep: usize = get("rep", "0").parse().unwrap();
    loop {
        let mut chunk: Vec<(usize, usize)> = vec![];
        if single && run_no + gave_up == 0 {
            chunk.push((0, rep));
        }
        while !single &&  chunk.len() < 2048 && pass < maxrep {
            if pass > 0 && chunk.iter().any(|u| u.1 == 0) {
                break;
            }
            while pos < scens.len() && chunk.len() < 2048 {
                if scens[pos].x > pass {
                    chunk.push((pos, pass))
                }
                pos += 1;
            }
            if pos == scens.len() {
                pos = 0;
                pass += 1;
                if !scens.iter().any(|s| s.x > pass) {
                    break;
                }
            }
        }
        if chunk.is_empty() || (chunk[0].1 > 0 && t0.elapsed().as_secs_f64() > secs) {
            break;
        }
        let next = AtomicUsize::new(0);
        let res: Mutex<Vec<Option<Vec<Obs>>>> = Mutex::new(vec![None; chunk.len()]);
        std::thread::scope(|s| {
            for slot in 0..threads {
                let (next, res, chunk, scens, t0) = (&next, &res, &chunk, &scens, &t0);
                s.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= chunk.len() {
                        break;
                    }
                    // a chunk of later repetitions may be cut short
                    if chunk[i].1 > 0 && t0.elapsed().as_secs_f64() > secs {
                        break;
                    }
                    let sseed =
                        tok(format!("{}/{}/{}", seed, chunk[i].0 + shift, chunk[i].1).as_bytes()) as u64;
                    crate::watch::begin(slot, chunk[i].0, chunk[i].1 as u64);
                    let o = execute(&scens[chunk[i].0], sseed, chunk[i].1 as u64);
                    crate::watch::end(slot);
                    res.lock().unwrap()[i] = Some(o);
                });
            }
        });
        for (i, o) in res.into_inner().unwrap().into_iter().enumerate() {
            let o = match o {
                Some(o) => o,
                None if chunk[i].1 > 0 => continue,
                None => panic!("HARNESS worker"),
            };
            if o.iter().any(|x| x.r == "na") {
                gave_up += 1;
                continue;
            }
            run_no += 1;
            total += 1;
            events += o.len() as u64;
            let n = normalize(&o, run_no, &mut it);
            let e = dedupe.entry((chunk[i].0, n.clone())).or_insert_with(|| {
                order.push((chunk[i].0, n));
                (0, chunk[i].1 as u64)
            });
            e.0 += 1;
        }
    }
    writeln!(
        w,
        "{}",
        json!({"lens": lens, "total": total, "events": events, "passes": pass, "seed": seed,
               "scenarios": scens.len(), "gave_up": gave_up, "distinct": order.len()})
    )
    .unwrap();
    for (sc, n) in &order {
        let (cnt, rep) = dedupe[&(*sc, n.clone())];
        let sref = &scens[*sc];
        let mut acts = sref.raw.as_array().unwrap().clone();
        let nlive = sref
            .acts
            .iter()
            .filter(|a| matches!(a, Act::New(_)))
            .count();
        for i in 0..nlive {
            acts.push(json!({"a": "fin", "s": i + 1}));
        }
        writeln!(
            w,
            "{{\"sc\":{},\"rep\":{},\"cnt\":{},\"ml\":{},\"acts\":{},\"obs\":{}}}",
            sc + 1,
            rep,
            cnt,
            serde_json::to_string(&sref.ml).unwrap(),
            serde_json::to_string(&acts).unwrap(),
            n
        )
        .unwrap();
    }
    w.flush().unwrap();
    eprintln!(
        "lh: {} scenarios, {} passes, {} runs, {} events, {} distinct, {:.1}s",
        scens.len(),
        pass,
        total,
        events,
        order.len(),
        t0.elapsed().as_secs_f64()
    );
}
