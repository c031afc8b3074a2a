//! Recorded Saber operations for the numeric specification (C21): every byte of the inputs and outputs.
use crate::kem::*;
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufWriter, Write};

fn pack13(c: &[i32]) -> Vec<u8> {
    let mut out = vec![0u8; c.len() * 13 / 8];
    for (i, x) in c.iter().enumerate() {
        let v = (*x & 0x1fff) as u32;
        for b in 0..13 {
            if v >> b & 1 == 1 {
                let p = 13 * i + b;
                out[p / 8] |= 1 << (p % 8);
            }
        }
    }
    out
}

/// A well-formed secret key with chosen secret coefficients and everything else random
fn crafted_sk(set: &str, rng: &mut StdRng, mut f: impl FnMut(&mut StdRng) -> i32) -> Vec<u8> {
    let (k, _, _) = params(set);
    let c: Vec<i32> = (0..256 * k).map(|_| f(rng)).collect();
    let mut sk = pack13(&c);
    let mut rest = vec![0u8; 320 * k + 32 + 64];
    rng.fill_bytes(&mut rest);
    sk.extend(rest);
    sk
}

pub fn run(m: &HashMap<String, String>) {
    let seed: u64 = m.get("seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let n: usize = m.get("n").and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut rng = StdRng::seed_from_u64(seed);
    let mut out: Vec<Value> = Vec::new();
    for round in 0..n {
        for set in SETS {
            let (k, bound, rb) = params(set);
            let x = kem(set);
            let ctlen = 320 * k + 32 * rb;
            let mut put = |op: &str, why: String, f: &dyn Fn() -> Res<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>| {
                let (r, sk, ct, ss, enc) = match f() {
                    Ok((a, b, c, d)) => ("ok".to_string(), a, b, c, d),
                    Err(e) => (e, vec![], vec![], vec![], vec![]),
                };
                out.push(json!({"set": set, "op": op, "why": why, "r": r, "sk": sk, "ct": ct, "ss": ss, "enc": enc, "round": round}));
            };
            let sk = x.keygen();
            // key generation: the encoded secret key and the public key taken from it
            put("kg", "keygen".into(), &|| {
                let sk = sk.clone()?;
                let pk = x.public(&sk)?;
                Ok((sk, pk, vec![], vec![]))
            });
            let sk = match sk {
                Ok(s) => s,
                Err(_) => continue,
            };
            let en = guard(|| x.encapsulate(&x.public(&sk)?));
            // encapsulation, and decapsulation of it
            put("en", "encapsulate".into(), &|| {
                let (s, c) = en.clone()?;
                Ok((sk.clone(), c.clone(), x.decapsulate(&c, &sk)?, s))
            });
            put("cp", "CPA encapsulation to the CPA part of a public key".into(), &|| {
                let (s, c) = x.encapsulate_cpa(&x.public(&sk)?)?;
                Ok((sk.clone(), c, s, vec![]))
            });
            let ct = match en {
                Ok((_, c)) => c,
                Err(_) => continue,
            };
            let mut de = |why: String, sk: Vec<u8>, ct: Vec<u8>| {
                put("de", why, &|| {
                    let s = x.decapsulate(&ct, &sk)?;
                    Ok((sk.clone(), ct.clone(), s, vec![]))
                });
            };
            // altered ciphertexts and keys, in an order that spreads over the rounds
            let flip = |v: &[u8], bit: usize| {
                let mut w = v.to_vec();
                w[bit / 8] ^= 1 << (bit % 8);
                w
            };
            let skb = 8 * sk.len();
            let cases: Vec<(String, Vec<u8>, Vec<u8>)> = {
                let mut c = Vec::new();
                let b1 = rng.gen_range(0..2560 * k);
                let b2 = 2560 * k + rng.gen_range(0..256 * rb);
                c.push((format!("ciphertext bit {b1} flipped"), sk.clone(), flip(&ct, b1)));
                c.push(("crafted key, random ciphertext".into(), crafted_sk(set, &mut rng, |r| r.gen_range(-bound..=bound)), {
                    let mut v = vec![0; ctlen];
                    rng.fill_bytes(&mut v);
                    v
                }));
                c.push((format!("ciphertext bit {b2} flipped"), sk.clone(), flip(&ct, b2)));
                let z = skb - 1 - rng.gen_range(0..256);
                c.push((format!("secret key bit {z} (rejection seed) and ciphertext bit 0 flipped"), flip(&sk, z), flip(&ct, 0)));
                let h = skb - 257 - rng.gen_range(0..256);
                c.push((format!("secret key bit {h} (public key hash) flipped"), flip(&sk, h), ct.clone()));
                let p = 3328 * k + rng.gen_range(0..2560 * k);
                c.push((format!("secret key bit {p} (public vector) flipped"), flip(&sk, p), ct.clone()));
                c.push(("all coefficients maximal, ciphertext all ones".into(), crafted_sk(set, &mut rng, |_| bound), vec![255; ctlen]));
                c.push(("all coefficients minimal, ciphertext all ones".into(), crafted_sk(set, &mut rng, |_| -bound), vec![255; ctlen]));
                c.push(("secret zero, ciphertext zero".into(), crafted_sk(set, &mut rng, |_| 0), vec![0; ctlen]));
                c.push(("rejection seed flipped, honest ciphertext".into(), flip(&sk, z), ct.clone()));
                c
            };
            let per: usize = m.get("per").and_then(|x| x.parse().ok()).unwrap_or(3);
            let nc = cases.len();
            for (j, (why, s, c)) in cases.into_iter().enumerate() {
                // `per` of the cases per round and set
                if (j + nc - (round * per) % nc) % nc < per {
                    de(why, s, c);
                }
            }
        }
    }
    let mut w = BufWriter::new(std::fs::File::create(&m["out"]).expect("HARNESS cannot write"));
    for v in &out {
        writeln!(w, "{v}").expect("HARNESS cannot write");
    }
}
