//! Recorded Dilithium operations for the numeric specification (C24): every byte of the inputs and outputs.
use crate::dict::dict;
use crate::kem::Res;
use crate::prim::{backend, signer, sizes};
use crate::tape;
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()
}

fn verdict(r: Res<()>) -> &'static str {
    match r {
        Ok(()) => "yes",
        Err(_) => "no",
    }
}

struct Out {
    lines: Vec<Value>,
    rng: StdRng,
}

impl Out {
    fn key(&mut self, set: &str, be: i64, coins: &[u8], r: Res<(Vec<u8>, Vec<u8>)>) -> Option<(Vec<u8>, Vec<u8>)> {
        let (s, k) = match &r {
            Ok(k) => ("ok".to_string(), k.clone()),
            Err(e) => (e.clone(), (vec![], vec![])),
        };
        self.lines.push(json!({"op": "key", "set": set, "be": be, "r": s, "coins": coins, "pk": k.0, "sk": k.1}));
        r.ok()
    }
    /// An ordinary key pair made with the given coins as the only randomness, or with coins that are not known
    fn known(&mut self, set: &str, be: i64, coins: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
        let (r, read) = tape::with(coins, || signer(set).kp(backend(be)));
        let coins: &[u8] = match &read[..] {
            [c] if c.len() == 32 => c,
            _ => &[],
        };
        self.key(set, be, coins, r)
    }
    fn sign(&mut self, set: &str, sk: &[u8], m: &[u8], good: &[u8]) -> Option<Vec<u8>> {
        let d = signer(set);
        let mut sigs = Vec::new();
        for be in 0..3 {
            // detached and attached, which are to agree
            let s = d.ds(backend(be), m, sk).and_then(|s| {
                let sm = d.sg(backend(be), m, sk)?;
                if sm.len() != s.len() + m.len() || sm[..s.len()] != s[..] || sm[s.len()..] != m[..] {
                    return Err("attached and detached signature differ".into());
                }
                Ok(s)
            });
            match s {
                Ok(s) => sigs.push(s),
                Err(e) => {
                    self.lines.push(json!({"op": "sign", "set": set, "r": e, "sk": sk, "m": m, "good": good, "sigs": []}));
                    return None;
                }
            }
        }
        self.lines.push(json!({"op": "sign", "set": set, "r": "ok", "sk": sk, "m": m, "good": good, "sigs": sigs}));
        Some(sigs[self.rng.gen_range(0..3)].clone())
    }
    fn ver(&mut self, set: &str, pk: &[u8], cases: Vec<(&str, String, Vec<u8>, Vec<u8>)>) {
        let d = signer(set);
        let cs: Vec<Value> = cases
            .into_iter()
            .map(|(kind, why, m, sig)| {
                let ok: Vec<&str> = (0..3).map(|be| verdict(d.vf(backend(be), &sig, &m, pk))).collect();
                json!({"kind": kind, "why": why, "m": m, "sig": sig, "ok": ok})
            })
            .collect();
        self.lines.push(json!({"op": "ver", "set": set, "r": "ok", "pk": pk, "cases": cs}));
    }
    /// A flipped bit of every part of the signature, hints encoded differently, other messages
    fn alterations(&mut self, set: &str, m: &[u8], sig: &[u8], many: usize) -> Vec<(&'static str, String, Vec<u8>, Vec<u8>)> {
        let z = sizes(set);
        let h = z.sig - z.omega - z.k;
        let mut res = Vec::new();
        if sig.len() != z.sig {
            return res;
        }
        let mut flip = |what: &str, a: usize, b: usize, rng: &mut StdRng| {
            let bit = rng.gen_range(8 * a..8 * b);
            let mut s = sig.to_vec();
            s[bit / 8] ^= 1 << (bit % 8);
            res.push(("flip", format!("{what}: bit {bit} flipped"), m.to_vec(), s));
        };
        flip("challenge: last byte", z.c - 1, z.c, &mut self.rng);
        for _ in 0..many {
            flip("challenge", 0, z.c, &mut self.rng);
            flip("response", z.c, h, &mut self.rng);
            flip("hint", h, z.sig, &mut self.rng);
        }
        let used = sig[z.sig - 1] as usize;
        let mut with = |why: &str, f: &dyn Fn(&mut Vec<u8>)| {
            let mut s = sig.to_vec();
            f(&mut s);
            if s != sig {
                res.push(("hint", why.to_string(), m.to_vec(), s));
            }
        };
        with("hint: first two positions swapped", &|s| s.swap(h, h + 1));
        with("hint: a position after the last one", &|s| s[h + used.min(z.omega - 1)] = 7);
        with("hint: the last count larger", &|s| s[z.sig - 1] = s[z.sig - 1].wrapping_add(1));
        with("hint: the last count 255", &|s| s[z.sig - 1] = 255);
        with("hint: the first count 255", &|s| s[h + z.omega] = 255);
        with("hint: the last position twice", &|s| {
            if used > 1 {
                s[h + used - 1] = s[h + used - 2]
            }
        });
        with("hint: none", &|s| s[h..].fill(0));
        let mut m2 = m.to_vec();
        m2.push(0);
        res.push(("msg", "another message".into(), m2, sig.to_vec()));
        res.push(("len", "one byte too many".into(), m.to_vec(), [sig, &[0]].concat()));
        res.push(("len", "one byte missing".into(), m.to_vec(), sig[..sig.len() - 1].to_vec()));
        // first the coefficient of the response at the largest value
        let mut s = sig.to_vec();
        s[z.c..z.c + 3].fill(0);
        res.push(("flip", "response: first coefficient gamma1".into(), m.to_vec(), s));
        res
    }
}

/// `n` coefficients of `w` bits, little endian
fn pack(out: &mut Vec<u8>, w: usize, n: usize, mut f: impl FnMut() -> u32) {
    let (mut acc, mut k) = (0u64, 0);
    for _ in 0..n {
        acc |= (f() as u64) << k;
        k += w;
        while k >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            k -= 8;
        }
    }
}

/// A secret key of the right form, with coefficients that key generation makes with negligible probability
fn odd_secret(set: &str, kind: usize, rng: &mut StdRng) -> Vec<u8> {
    let (k, l, eta, w) = match set {
        "2" => (4, 4, 2u32, 3),
        "3" => (6, 5, 4, 4),
        _ => (8, 7, 2, 3),
    };
    let mut sk = vec![0u8; 128];
    rng.fill_bytes(&mut sk);
    pack(&mut sk, w, 256 * (k + l), || match kind % 3 {
        0 => 0,
        1 => 2 * eta,
        _ => 2 * eta * rng.gen_range(0..2u32),
    });
    pack(&mut sk, 13, 256 * k, || match kind % 3 {
        // larger than usual: more hints than can be encoded, now and then
        0 => [rng.gen_range(0..2200u32), rng.gen_range(6000..8192u32)][rng.gen_range(0..2)],
        1 => 4096,
        _ => rng.gen_range(0..8192),
    });
    sk
}

fn differences(seed: u64, n: usize) -> Vec<Value> {
    let mut rng = StdRng::seed_from_u64(seed);
    let mut res = Vec::new();
    for i in 0..n {
        let set = ["2", "3", "5"][i % 3];
        let d = signer(set);
        let kind = rng.gen_range(0..6);
        let sk = if kind < 3 {
            odd_secret(set, kind, &mut rng)
        } else {
            // an ordinary key pair of any implementation is the one that its coins determine
            let (be, coins): (i64, [u8; 32]) = (rng.gen_range(0..3), rng.gen());
            let (k, read) = tape::with(&coins, || d.kp(backend(be)));
            let det = d.kd(coins);
            if read == [coins.to_vec()] && k != det {
                let (r, k) = match k {
                    Ok(k) => ("ok".to_string(), k),
                    Err(e) => (e, (vec![], vec![])),
                };
                res.push(json!({"op": "key", "set": set, "be": be, "r": r, "coins": coins, "pk": k.0, "sk": k.1}));
                if let Ok(k) = &det {
                    res.push(json!({"op": "key", "set": set, "be": 1, "r": "ok", "coins": coins, "pk": k.0, "sk": k.1}));
                }
            }
            match det {
                Ok(k) => k.1,
                Err(_) => continue,
            }
        };
        for _ in 0..8 {
            let mut m = vec![0u8; rng.gen_range(0..200)];
            rng.fill_bytes(&mut m);
            let sigs: Vec<Res<Vec<u8>>> = (0..3).map(|be| d.ds(backend(be), &m, &sk)).collect();
            if sigs.iter().all(|s| *s == sigs[0]) {
                continue;
            }
            let (r, sigs) = match sigs.into_iter().collect::<Res<Vec<_>>>() {
                Ok(s) => ("ok".to_string(), s),
                Err(e) => (e, vec![]),
            };
            res.push(json!({"op": "sign", "set": set, "r": r, "sk": sk, "m": m, "good": [], "sigs": sigs}));
        }
    }
    res
}

pub fn run(m: &HashMap<String, String>) {
    let seed: u64 = m.get("seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let n: usize = m.get("n").and_then(|x| x.parse().ok()).unwrap_or(1);
    let per: usize = m.get("per").and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut o = Out { lines: vec![], rng: StdRng::seed_from_u64(seed) };
    // what the specification made up
    let f = BufReader::new(std::fs::File::open(&m["gen"]).expect("HARNESS cannot read"));
    for l in f.lines() {
        let g: Value = serde_json::from_str(&l.expect("HARNESS cannot read")).expect("HARNESS not JSON");
        let set = g["set"].as_str().expect("HARNESS set").to_string();
        if g["flat"] == json!(true) {
            let cases: Vec<_> = g["cases"]
                .as_array()
                .expect("HARNESS cases")
                .iter()
                .map(|c| ("flat", c["why"].as_str().unwrap_or("").to_string(), bytes(&c["m"]), bytes(&c["sig"])))
                .collect();
            o.ver(&set, &bytes(&g["pk"]), cases);
            continue;
        }
        let (pk, sk, msg) = (bytes(&g["pk"]), bytes(&g["sk"]), bytes(&g["m"]));
        let coins: [u8; 32] = bytes(&g["coins"]).try_into().expect("HARNESS coins");
        o.key(&set, 1, &coins, signer(&set).kd(coins));
        o.known(&set, 2, &coins);
        let good = bytes(&g["good"]);
        o.sign(&set, &sk, &msg, &good);
        let mut cases = vec![("good", "the specification's signature".to_string(), msg.clone(), good.clone())];
        for (kind, why) in [("big", "signer does not limit the response"), ("low", "signer does not limit the low bits")] {
            let s = bytes(&g[kind]);
            if !s.is_empty() {
                cases.push((kind, why.to_string(), msg.clone(), s));
            }
        }
        let alt = o.alterations(&set, &msg, &good, per);
        cases.extend(alt);
        for c in cases.chunks(5) {
            o.ver(&set, &pk, c.to_vec());
        }
    }
    // what the code makes up
    for round in 0..n {
        for set in ["2", "3", "5"] {
            let d = signer(set);
            let mut coins = [0u8; 32];
            o.rng.fill_bytes(&mut coins);
            if round % 2 == 1 {
                coins = [if round % 4 == 1 { 0 } else { 255 }; 32];
            }
            let be = (round % 3) as i64;
            let k1 = o.key(set, 1, &coins, d.kd(coins));
            // every other time with coins that are known
            let k2 = if round % 2 == 0 { o.known(set, be, &[]) } else { o.key(set, be, &[], d.kp(backend(be))) };
            let (pk, sk) = match if round % 2 == 0 { k2 } else { k1 } {
                Some(k) => k,
                None => continue,
            };
            let len = [0usize, 1, 7, 8, 63, 72, 135, 136, 137, 200, 271, 272, 1000][o.rng.gen_range(0..13)];
            let len = if !dict().is_empty() && o.rng.gen_range(0..4) == 0 { dict().len(o.rng.gen()) } else { len };
            let mut msg = vec![0u8; len];
            o.rng.fill_bytes(&mut msg);
            let sig = match o.sign(set, &sk, &msg, &[]) {
                Some(s) => s,
                None => continue,
            };
            let mut cases = vec![("good", "a signature".to_string(), msg.clone(), sig.clone())];
            if per > 1 {
                cases.extend(o.alterations(set, &msg, &sig, 1));
            }
            for c in cases.chunks(5) {
                o.ver(set, &pk, c.to_vec());
            }
            for kind in if round == 0 { 0..2 } else { round + 1..round + 2 } {
                let sk = odd_secret(set, kind, &mut o.rng);
                o.rng.fill_bytes(&mut msg);
                o.sign(set, &sk, &msg, &[]);
            }
        }
    }
    // Signing is compared between the implementations on many more messages; where they differ, the specification is to decide
    let bulk: usize = m.get("bulk").and_then(|x| x.parse().ok()).unwrap_or(0);
    let threads = 8;
    let seeds: Vec<u64> = (0..threads).map(|_| o.rng.gen()).collect();
    let found: Vec<Value> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|s| sc.spawn(move || differences(*s, bulk / threads))).collect();
        hs.into_iter().flat_map(|h| h.join().expect("HARNESS thread")).collect()
    });
    for set in ["2", "3", "5"] {
        o.lines.extend(found.iter().filter(|v| v["set"] == set).take(2).cloned());
    }
    println!("{}", json!({"bulk": bulk, "differences": found.len()}));
    let mut w = BufWriter::new(std::fs::File::create(&m["out"]).expect("HARNESS cannot write"));
    for v in &o.lines {
        writeln!(w, "{v}").expect("HARNESS cannot write");
    }
}
