//! Executes operation sequences on the primitives (Saber, Dilithium, the wide-block cipher); see spec/Prim.tla.
use crate::dict::dict;
use crate::kem::{self, guard, Res};
use crate::scen::{tok, Tok};
use pqcrypto_dilithium::{dilithium2, dilithium3, dilithium5, ffi};
use pqcrypto_traits::sign::{DetachedSignature as _, PublicKey as _, SecretKey as _, SignedMessage as _};
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::Hasher;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
struct Op {
    o: String,
    x: usize,
    y: usize,
    z: usize,
    f: String,
    n: i64,
}

struct Scen {
    p: String,
    set: String,
    w: usize,
    ops: Vec<Op>,
    raw: Value,
}

fn parse(l: &str) -> Scen {
    let v: Value = serde_json::from_str(l).expect("HARNESS scenario");
    let u = |a: &Value| a.as_u64().unwrap() as usize;
    let ops = v["ops"].as_array().map(|a| a.to_vec()).unwrap_or_default();
    Scen {
        p: v["p"].as_str().unwrap().into(),
        set: v["set"].as_str().unwrap().into(),
        w: u(&v["w"]),
        ops: ops
            .iter()
            .map(|o| Op {
                o: o["o"].as_str().unwrap().into(),
                x: u(&o["x"]),
                y: u(&o["y"]),
                z: u(&o["z"]),
                f: o["f"].as_str().unwrap().into(),
                n: o["n"].as_i64().unwrap(),
            })
            .collect(),
        raw: Value::Array(ops),
    }
}

fn rng_for(seed: u64, tag: &str, k: i64) -> StdRng {
    let mut s = [0u8; 32];
    for i in 0..4u8 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u64(seed);
        h.write(tag.as_bytes());
        h.write_i64(k);
        h.write_u8(i);
        s[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    StdRng::from_seed(s)
}

/// Bit n (0 first, 1 last, 2 and 3 random ones in either half) of the field [a, b)
fn flip(v: &mut Vec<u8>, a: usize, b: usize, n: i64, seed: u64, tag: &str) {
    let b = b.min(v.len());
    if a >= b {
        v.push(1);
        return;
    }
    let bits = 8 * (b - a);
    let mid = bits / 2;
    let mut r = rng_for(seed, tag, n);
    let p = match n {
        0 => 0,
        1 => bits - 1,
        2 => r.gen_range(1..mid),
        _ => r.gen_range(mid..bits - 1),
    };
    v[a + p / 8] ^= 1 << (p % 8);
}

// ------------------------------------------------------------------ Dilithium
pub struct Sizes {
    pub pk: usize,
    pub sk: usize,
    pub sig: usize,
    pub c: usize,
    pub omega: usize,
    pub k: usize,
}

pub fn sizes(set: &str) -> Sizes {
    match set {
        "2" => Sizes { pk: 1312, sk: 2560, sig: 2420, c: 32, omega: 80, k: 4 },
        "3" => Sizes { pk: 1952, sk: 4032, sig: 3309, c: 48, omega: 55, k: 6 },
        _ => Sizes { pk: 2592, sk: 4896, sig: 4627, c: 64, omega: 75, k: 8 },
    }
}

pub trait Sign: Sync {
    fn kp(&self, be: i64) -> Res<(Vec<u8>, Vec<u8>)>;
    fn kd(&self, coins: [u8; 32]) -> Res<(Vec<u8>, Vec<u8>)>;
    fn sg(&self, be: i64, m: &[u8], sk: &[u8]) -> Res<Vec<u8>>;
    fn ds(&self, be: i64, m: &[u8], sk: &[u8]) -> Res<Vec<u8>>;
    fn op(&self, be: i64, sm: &[u8], pk: &[u8]) -> Res<Vec<u8>>;
    fn vf(&self, be: i64, sig: &[u8], m: &[u8], pk: &[u8]) -> Res<()>;
    fn rt(&self, ty: &str, b: &[u8]) -> Res<Vec<u8>>;
    /// the crate's comparison of two keys
    fn eq(&self, ty: &str, a: &[u8], b: &[u8]) -> Res<bool>;
    /// lengths the crate announces
    fn sz(&self, ty: &str) -> usize;
}

fn good(r: i32) -> Res<()> {
    if r == 0 {
        Ok(())
    } else if r == -1 {
        Err("invalid".into())
    } else {
        Err(format!("result {r}"))
    }
}

/// a copy of exactly its size on the heap, so that AddressSanitizer sees where it ends
fn exact(b: &[u8]) -> Box<[u8]> {
    b.into()
}

macro_rules! dil {
    ($s:ident, $m:ident, $set:expr, $kd:expr,
     $ckp:ident, $csg:ident, $cop:ident, $cds:ident, $cvf:ident,
     $akp:ident, $asg:ident, $aop:ident, $ads:ident, $avf:ident) => {
        struct $s;
        impl Sign for $s {
            fn kp(&self, be: i64) -> Res<(Vec<u8>, Vec<u8>)> {
                guard(|| {
                    let z = sizes($set);
                    if be == 0 {
                        let (p, s) = $m::keypair();
                        return Ok((p.as_bytes().to_vec(), s.as_bytes().to_vec()));
                    }
                    let (mut p, mut s) = (vec![0; z.pk], vec![0; z.sk]);
                    unsafe {
                        good(if be == 2 {
                            ffi::$akp(p.as_mut_ptr(), s.as_mut_ptr())
                        } else {
                            ffi::$ckp(p.as_mut_ptr(), s.as_mut_ptr())
                        })?
                    };
                    Ok((p, s))
                })
            }
            fn kd(&self, coins: [u8; 32]) -> Res<(Vec<u8>, Vec<u8>)> {
                guard(|| $kd(coins))
            }
            fn sg(&self, be: i64, m: &[u8], sk: &[u8]) -> Res<Vec<u8>> {
                guard(|| {
                    let z = sizes($set);
                    let k = $m::SecretKey::from_bytes(sk).map_err(|e| e.to_string())?;
                    if be == 0 {
                        let s = $m::sign(m, &k);
                        if s.len() != s.as_bytes().len() {
                            return Err("length of a signed message".into());
                        }
                        return Ok(s.as_bytes().to_vec());
                    }
                    let (m, sk) = (exact(m), exact(sk));
                    let mut o = vec![0u8; z.sig + m.len()];
                    let mut l = 0usize;
                    unsafe {
                        good(if be == 2 {
                            ffi::$asg(o.as_mut_ptr(), &mut l, m.as_ptr(), m.len(), sk.as_ptr())
                        } else {
                            ffi::$csg(o.as_mut_ptr(), &mut l, m.as_ptr(), m.len(), sk.as_ptr())
                        })?
                    };
                    o.truncate(l);
                    Ok(o)
                })
            }
            fn ds(&self, be: i64, m: &[u8], sk: &[u8]) -> Res<Vec<u8>> {
                guard(|| {
                    let z = sizes($set);
                    let k = $m::SecretKey::from_bytes(sk).map_err(|e| e.to_string())?;
                    if be == 0 {
                        return Ok($m::detached_sign(m, &k).as_bytes().to_vec());
                    }
                    let (m, sk) = (exact(m), exact(sk));
                    let mut o = vec![0u8; z.sig];
                    let mut l = 0usize;
                    unsafe {
                        good(if be == 2 {
                            ffi::$ads(o.as_mut_ptr(), &mut l, m.as_ptr(), m.len(), sk.as_ptr())
                        } else {
                            ffi::$cds(o.as_mut_ptr(), &mut l, m.as_ptr(), m.len(), sk.as_ptr())
                        })?
                    };
                    o.truncate(l);
                    Ok(o)
                })
            }
            fn op(&self, be: i64, sm: &[u8], pk: &[u8]) -> Res<Vec<u8>> {
                guard(|| {
                    let k = $m::PublicKey::from_bytes(pk).map_err(|e| e.to_string())?;
                    if be == 0 {
                        let s = $m::SignedMessage::from_bytes(sm).map_err(|e| e.to_string())?;
                        return $m::open(&s, &k).map_err(|e| e.to_string());
                    }
                    let (sm, pk) = (exact(sm), exact(pk));
                    let mut o = vec![0u8; sm.len()];
                    let mut l = 0usize;
                    unsafe {
                        good(if be == 2 {
                            ffi::$aop(o.as_mut_ptr(), &mut l, sm.as_ptr(), sm.len(), pk.as_ptr())
                        } else {
                            ffi::$cop(o.as_mut_ptr(), &mut l, sm.as_ptr(), sm.len(), pk.as_ptr())
                        })?
                    };
                    o.truncate(l);
                    Ok(o)
                })
            }
            fn vf(&self, be: i64, sig: &[u8], m: &[u8], pk: &[u8]) -> Res<()> {
                guard(|| {
                    let k = $m::PublicKey::from_bytes(pk).map_err(|e| e.to_string())?;
                    if be == 0 {
                        let s = $m::DetachedSignature::from_bytes(sig).map_err(|e| e.to_string())?;
                        return $m::verify_detached_signature(&s, m, &k).map_err(|e| e.to_string());
                    }
                    let (sig, m, pk) = (exact(sig), exact(m), exact(pk));
                    unsafe {
                        good(if be == 2 {
                            ffi::$avf(sig.as_ptr(), sig.len(), m.as_ptr(), m.len(), pk.as_ptr())
                        } else {
                            ffi::$cvf(sig.as_ptr(), sig.len(), m.as_ptr(), m.len(), pk.as_ptr())
                        })
                    }
                })
            }
            fn rt(&self, ty: &str, b: &[u8]) -> Res<Vec<u8>> {
                guard(|| match ty {
                    "pk" => Ok($m::PublicKey::from_bytes(b).map_err(|e| e.to_string())?.as_bytes().to_vec()),
                    "sk" => Ok($m::SecretKey::from_bytes(b).map_err(|e| e.to_string())?.as_bytes().to_vec()),
                    "sig" => Ok($m::DetachedSignature::from_bytes(b).map_err(|e| e.to_string())?.as_bytes().to_vec()),
                    "sm" => Ok($m::SignedMessage::from_bytes(b).map_err(|e| e.to_string())?.as_bytes().to_vec()),
                    _ => Ok(b.to_vec()),
                })
            }
            fn eq(&self, ty: &str, a: &[u8], b: &[u8]) -> Res<bool> {
                let e = |e: pqcrypto_traits::Error| e.to_string();
                guard(|| match ty {
                    "pk" => {
                        let (p, q) = ($m::PublicKey::from_bytes(a).map_err(e)?, $m::PublicKey::from_bytes(b).map_err(e)?);
                        let r = p == q;
                        Ok(if r != (q.clone() == p) || r == (p != q) { panic!("comparison") } else { r })
                    }
                    _ => {
                        let (p, q) = ($m::SecretKey::from_bytes(a).map_err(e)?, $m::SecretKey::from_bytes(b).map_err(e)?);
                        let r = p == q;
                        Ok(if r != (q.clone() == p) || r == (p != q) { panic!("comparison") } else { r })
                    }
                })
            }
            fn sz(&self, ty: &str) -> usize {
                match ty {
                    "pk" => $m::public_key_bytes(),
                    "sk" => $m::secret_key_bytes(),
                    _ => $m::signature_bytes(),
                }
            }
        }
    };
}

dil!(D2, dilithium2, "2",
    |coins: [u8; 32]| {
        let (p, s) = dilithium2::keypair_det(coins);
        Ok((p.as_bytes().to_vec(), s.as_bytes().to_vec()))
    },
    PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open,
    PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify,
    PQCLEAN_DILITHIUM2_AVX2_crypto_sign_keypair, PQCLEAN_DILITHIUM2_AVX2_crypto_sign, PQCLEAN_DILITHIUM2_AVX2_crypto_sign_open,
    PQCLEAN_DILITHIUM2_AVX2_crypto_sign_signature, PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify);
dil!(D3, dilithium3, "3",
    |coins: [u8; 32]| {
        let (mut p, mut s) = (vec![0; 1952], vec![0; 4032]);
        unsafe { good(ffi::PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_keypair_det(coins.as_ptr(), p.as_mut_ptr(), s.as_mut_ptr()))? };
        Ok((p, s))
    },
    PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_keypair, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_open,
    PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_signature, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_verify,
    PQCLEAN_DILITHIUM3_AVX2_crypto_sign_keypair, PQCLEAN_DILITHIUM3_AVX2_crypto_sign, PQCLEAN_DILITHIUM3_AVX2_crypto_sign_open,
    PQCLEAN_DILITHIUM3_AVX2_crypto_sign_signature, PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify);
dil!(D5, dilithium5, "5",
    |coins: [u8; 32]| {
        let (mut p, mut s) = (vec![0; 2592], vec![0; 4896]);
        unsafe { good(ffi::PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_keypair_det(coins.as_ptr(), p.as_mut_ptr(), s.as_mut_ptr()))? };
        Ok((p, s))
    },
    PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_keypair, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_open,
    PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_signature, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_verify,
    PQCLEAN_DILITHIUM5_AVX2_crypto_sign_keypair, PQCLEAN_DILITHIUM5_AVX2_crypto_sign, PQCLEAN_DILITHIUM5_AVX2_crypto_sign_open,
    PQCLEAN_DILITHIUM5_AVX2_crypto_sign_signature, PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify);

pub fn signer(set: &str) -> &'static dyn Sign {
    match set {
        "2" => &D2,
        "3" => &D3,
        _ => &D5,
    }
}

/// The backend to use: without AVX2 only the portable one can be called directly
pub fn backend(n: i64) -> i64 {
    if n == 2 && !std::is_x86_feature_detected!("avx2") {
        1
    } else {
        n
    }
}

/// Alters a signature (or signed message) as field / kind f says. The result always differs.
fn alter_sig(v: &mut Vec<u8>, set: &str, f: &str, n: i64, seed: u64) {
    let z = sizes(set);
    let hs = z.sig - z.omega - z.k;
    let whole = v.len() >= z.sig;
    let old = v.clone();
    match f {
        "c" => flip(v, 0, z.c, n, seed, "c"),
        "z" => flip(v, z.c, hs, n, seed, "z"),
        "h" => flip(v, hs, z.sig, n, seed, "h"),
        "m" => {
            let l = v.len();
            flip(v, z.sig, l, n, seed, "m")
        }
        "mtr" if v.len() > z.sig => {
            v.pop();
        }
        "mtr" | "mex" => v.push(0),
        "tr" | "cut" => {
            let l = match n {
                1 => z.sig - 1,
                2 => rng_for(seed, "tr", n).gen_range(1..z.sig - 1),
                _ => 0,
            };
            v.truncate(l);
        }
        "hs" | "hd" | "hp" | "he" if whole => {
            let h = &mut v[hs..z.sig];
            let mut from = 0usize;
            let mut done = false;
            for i in 0..z.k {
                let to = (h[z.omega + i] as usize).min(z.omega);
                if f == "hs" && to >= from + 2 {
                    // two hints of one polynomial in the wrong order
                    h.swap(from, from + 1);
                    done = true;
                    break;
                }
                from = to;
            }
            let used = (h[z.omega + z.k - 1] as usize).min(z.omega);
            if f == "hd" && used > 0 && used < z.omega {
                // the last hint twice
                let i = (0..z.k).find(|i| h[z.omega + i] as usize == used).unwrap();
                h[used] = h[used - 1];
                for j in i..z.k {
                    h[z.omega + j] += 1;
                }
                done = true;
            }
            if f == "hp" && used < z.omega {
                // an unused hint not zero
                let p = rng_for(seed, "hp", 0).gen_range(used..z.omega);
                h[p] = 1 + (seed % 255) as u8;
                done = true;
            }
            if !done {
                // more hints than there can be
                h[z.omega + z.k - 1] = 255;
            }
        }
        _ => {}
    }
    if *v == old {
        v.push(0);
    }
}

// ------------------------------------------------------------------ execution
enum Ob {
    B(String, Vec<u8>),
    Csk(Box<dyn kem::CpaSecret>),
}

impl Ob {
    fn b(&self) -> &[u8] {
        match self {
            Ob::B(_, v) => v,
            _ => &[],
        }
    }
    fn ty(&self) -> &str {
        match self {
            Ob::B(t, _) => t,
            _ => "csk",
        }
    }
}

#[derive(Clone, Default)]
struct Rec {
    r: String,
    /// outputs: length, tokens
    o: Vec<(i64, Vec<Tok>)>,
    /// outputs are values nobody can have seen before
    fresh: bool,
}

fn bad_len(len: usize, n: i64) -> usize {
    match n {
        -9999 => 0,
        9999 => 2 * len,
        n => (len as i64 + n).max(0) as usize,
    }
}

fn kem_op(k: &dyn kem::Kem, set: &str, heap: &[Ob], op: &Op, seed: u64) -> Res<Vec<Ob>> {
    let (d, _, rb) = kem::params(set);
    let x = |i: usize| heap[i - 1].b();
    let b = |t: &str, v: Vec<u8>| Ob::B(t.into(), v);
    Ok(match &op.o[..] {
        "kg" => vec![b("sk", k.keygen()?)],
        "pub" => vec![b("pk", k.public(x(op.x))?)],
        "en" => {
            let (s, c) = k.encapsulate(x(op.x))?;
            vec![b("ss", s), b("ct", c)]
        }
        "de" => vec![b("ss", k.decapsulate(x(op.x), x(op.y))?)],
        "dir" => {
            let (s, t) = k.direct()?;
            vec![b("ss", s), b("ss", t)]
        }
        "ckg" => {
            let (p, s) = k.keygen_cpa()?;
            vec![b("pk", p), Ob::Csk(s)]
        }
        "cen" => {
            let (s, c) = k.encapsulate_cpa(x(op.x))?;
            vec![b("cs", s), b("ct", c)]
        }
        "cde" => match &heap[op.y - 1] {
            Ob::Csk(s) => vec![b("cs", s.decapsulate(x(op.x))?)],
            _ => vec![],
        },
        "rt" => {
            let (o, n) = (&heap[op.x - 1], op.n as usize);
            let t = if op.f == "cpk" { "cpk" } else { o.ty() };
            let v = match t {
                "pk" => k.rt_pk(o.b(), n)?,
                "sk" => k.rt_sk(o.b(), n)?,
                "ct" => k.rt_ct(o.b(), n)?,
                "cpk" => k.rt_cpk(o.b(), n)?,
                _ => k.rt_ss(o.b(), n)?,
            };
            vec![b(o.ty(), v)]
        }
        "bl" => {
            let n = op.z;
            let right = match &op.f[..] {
                "pk" | "cpk" => 320 * d + 32,
                "sk" => 736 * d + 96,
                "ct" => 320 * d + 32 * rb,
                _ => 32,
            };
            let mut v = vec![0u8; bad_len(right, op.n)];
            rng_for(seed, "bl", 0).fill_bytes(&mut v);
            if op.f == "sk" {
                // coefficients of 13 bits, any
            }
            match &op.f[..] {
                "pk" => k.rt_pk(&v, n)?,
                "sk" => k.rt_sk(&v, n)?,
                "ct" => k.rt_ct(&v, n)?,
                // this decoder has no error to return
                "cpk" => k.rt_cpk(&v, n).map_err(|e| if n == 0 { "rej".to_string() } else { e })?,
                _ => k.rt_ss(&v, n)?,
            };
            vec![]
        }
        "fl" => {
            let o = &heap[op.x - 1];
            let mut v = o.b().to_vec();
            let l = v.len();
            let (a, e) = match (o.ty(), &op.f[..]) {
                ("ct", "b") | ("pk", "b") => (0, 320 * d),
                ("ct", _) | ("pk", _) => (320 * d, l),
                ("sk", "z") => (l - 32, l),
                _ => (l - 64, l - 32),
            };
            flip(&mut v, a, e, op.n, seed, &format!("{}{}", o.ty(), op.f));
            vec![b(o.ty(), v)]
        }
        "cc" => {
            let mut v = vec![if op.n == 1 { 255u8 } else { 0 }; 320 * d + 32 * rb];
            if op.n == 2 {
                rng_for(seed, "cc", heap.len() as i64).fill_bytes(&mut v);
            }
            vec![b("ct", v)]
        }
        x => panic!("HARNESS op {x}"),
    })
}

fn message(n: i64, seed: u64, rep: u64) -> Vec<u8> {
    let mut r = rng_for(seed, "msg", n);
    let l = match n {
        0 => 0,
        1 => 1,
        2 => 32,
        3 => 71,
        4 if rep % 3 == 1 && !dict().is_empty() => dict().len(r.gen()),
        4 => r.gen_range(1..400),
        5 => 5000,
        6 => 72,
        7 => 73,
        8 => 136 + 72,
        _ => 70000,
    };
    let mut v = vec![0u8; l];
    if rep % 4 != 3 {
        r.fill_bytes(&mut v);
    }
    v
}

fn sig_op(s: &dyn Sign, set: &str, heap: &[Ob], op: &Op, seed: u64, rep: u64) -> Res<Vec<Ob>> {
    let x = |i: usize| heap[i - 1].b();
    let b = |t: &str, v: Vec<u8>| Ob::B(t.into(), v);
    let z = sizes(set);
    let be = backend(op.n);
    Ok(match &op.o[..] {
        "kp" => {
            let (p, k) = s.kp(be)?;
            vec![b("pk", p), b("sk", k)]
        }
        "kd" => {
            // coins 1; coins n > 1 differ from them in bit n - 2; the last kind is unrelated
            let mut c = [0u8; 32];
            if rep % 3 != 0 {
                rng_for(seed, "coins", 0).fill_bytes(&mut c);
            }
            let n = op.n as usize;
            if n >= 2 && n < 258 {
                // another bit of the same byte in every repetition
                let bit = n - 2;
                c[bit / 8] ^= 1 << ((bit + (seed >> 11) as usize + rep as usize) % 8);
            } else if n >= 258 {
                rng_for(seed, "coins", 1).fill_bytes(&mut c);
            }
            let (p, k) = s.kd(c)?;
            vec![b("pk", p), b("sk", k)]
        }
        "msg" => vec![b("msg", message(op.n, seed, rep))],
        "ma" => {
            let mut m = x(op.x).to_vec();
            match &op.f[..] {
                "flip" if !m.is_empty() => {
                    let p = rng_for(seed, "ma", 0).gen_range(0..8 * m.len());
                    m[p / 8] ^= 1 << (p % 8);
                }
                "cut" if !m.is_empty() => {
                    m.pop();
                }
                _ => m.push((seed % 2) as u8),
            }
            vec![b("msg", m)]
        }
        "sg" => vec![b("sm", s.sg(be, x(op.y), x(op.x))?)],
        "ds" => vec![b("sig", s.ds(be, x(op.y), x(op.x))?)],
        "op" => vec![b("msg", s.op(be, x(op.x), x(op.y))?)],
        "vf" => {
            s.vf(be, x(op.x), x(op.y), x(op.z))?;
            vec![]
        }
        "sp" => {
            let v = x(op.x);
            vec![b("sig", v[..z.sig.min(v.len())].to_vec())]
        }
        "jn" => {
            let mut v = x(op.x).to_vec();
            v.extend_from_slice(x(op.y));
            vec![b("sm", v)]
        }
        "rt" => {
            let o = &heap[op.x - 1];
            vec![b(o.ty(), s.rt(o.ty(), o.b())?)]
        }
        "eq" => {
            let o = &heap[op.x - 1];
            if !s.eq(o.ty(), o.b(), x(op.y))? {
                return Err("differ".into());
            }
            vec![]
        }
        "sz" => vec![Ob::B("sz".into(), vec![0; s.sz(&op.f)])],
        "bl" => {
            let right = match &op.f[..] {
                "pk" => z.pk,
                "sk" => z.sk,
                _ => z.sig,
            };
            s.rt(&op.f, &vec![7u8; bad_len(right, op.n)])?;
            vec![]
        }
        "fl" => {
            let o = &heap[op.x - 1];
            let mut v = o.b().to_vec();
            match (o.ty(), &op.f[..]) {
                ("pk", "rho") => flip(&mut v, 0, 32, op.n, seed, "rho"),
                ("pk", _) => flip(&mut v, 32, z.pk, op.n, seed, "t1"),
                ("sk", f) => flip(&mut v, if f == "rho" { 0 } else { 32 }, if f == "rho" { 32 } else { z.sk }, op.n, seed, f),
                (_, f) => alter_sig(&mut v, set, f, op.n, seed),
            }
            vec![b(o.ty(), v)]
        }
        x => panic!("HARNESS op {x}"),
    })
}

/// Blocks of n bytes: n / 8 words, the last one takes what is left over
fn words(v: &[u8]) -> Vec<Tok> {
    let n = v.len() / 8;
    (0..n).map(|j| tok(if j + 1 == n { &v[8 * j..] } else { &v[8 * j..8 * j + 8] })).collect()
}

#[cfg(latke_verif)]
fn wbc(dec: bool, key: &[u8], v: &mut Vec<u8>) -> Res<()> {
    guard(|| {
        if dec {
            latke::verif_hooks::wide_block_decrypt(key, v)
        } else {
            latke::verif_hooks::wide_block_encrypt(key, v)
        }
        Ok(())
    })
}

#[cfg(not(latke_verif))]
fn wbc(_: bool, _: &[u8], _: &mut Vec<u8>) -> Res<()> {
    eprintln!("HARNESS no hook");
    std::process::exit(4)
}

fn wbc_op(heap: &[Ob], op: &Op, seed: u64, rep: u64) -> Res<Vec<Ob>> {
    let mut key = [0u8; 32];
    rng_for(seed, "key", if op.n == 3 { 3 } else { 1 }).fill_bytes(&mut key);
    if op.n == 2 {
        let p = rng_for(seed, "keybit", 0).gen_range(0..256);
        key[p / 8] ^= 1 << (p % 8);
    }
    let v = match &op.o[..] {
        "pt" => {
            let mut v = vec![0u8; op.n as usize];
            rng_for(seed, "pt", rep as i64).fill_bytes(&mut v);
            v
        }
        "we" | "wd" => {
            let mut v = heap[op.x - 1].b().to_vec();
            wbc(op.o == "wd", &key, &mut v)?;
            v
        }
        _ => {
            let mut v = heap[op.x - 1].b().to_vec();
            let n = v.len() / 8;
            let a = 8 * (op.y - 1);
            let e = if op.y == n { v.len() } else { a + 8 };
            flip(&mut v, a, e, op.n, seed, &format!("w{}", op.y));
            v
        }
    };
    Ok(vec![Ob::B("b".into(), v)])
}

const OURS: [&str; 6] = ["fl", "ma", "msg", "sp", "jn", "cc"];
const FRESH: [&str; 6] = ["kg", "ckg", "kp", "en", "cen", "dir"];

fn execute(sc: &Scen, seed: u64, rep: u64) -> Vec<Rec> {
    let mut heap: Vec<Ob> = vec![];
    let mut out = vec![];
    crate::tape::set_quirk(seed >> 7 & 3 == 1);
    for op in &sc.ops {
        let mut rec = Rec::default();
        let top = op.x.max(op.y).max(op.z);
        let needs = if sc.p == "wbc" || op.o == "bl" || op.o == "kd" { op.x } else { top };
        if needs > heap.len() {
            rec.r = "skip".into();
            out.push(rec);
            continue;
        }
        let r = guard(|| match &sc.p[..] {
            "kem" => kem_op(kem::kem(&sc.set), &sc.set, &heap, op, seed),
            "sig" => sig_op(signer(&sc.set), &sc.set, &heap, op, seed, rep),
            _ => wbc_op(&heap, op, seed, rep),
        });
        match r {
            Ok(v) => {
                rec.r = "ok".into();
                rec.fresh = FRESH.contains(&&op.o[..]);
                for o in v {
                    rec.o.push(match &o {
                        Ob::Csk(_) => (0, vec![]),
                        Ob::B(t, b) if t == "sz" => (b.len() as i64, vec![]),
                        Ob::B(_, b) if sc.p == "wbc" => (b.len() as i64, words(b)),
                        // a signed message is as much longer than the message as a signature is; lengths of our own making are not of interest
                        Ob::B(_, b) if op.o == "sg" => (b.len() as i64 - heap[op.y - 1].b().len() as i64, vec![tok(b)]),
                        Ob::B(t, b) if t == "msg" || t == "sm" || OURS.contains(&&op.o[..]) => (-1, vec![tok(b)]),
                        Ob::B(_, b) => (b.len() as i64, vec![tok(b)]),
                    });
                    heap.push(o);
                }
            }
            Err(e) => rec.r = if e == "panic" { "panic".into() } else { "rej".into() },
        }
        out.push(rec);
    }
    out
}

/// Numbers tokens by first appearance; -1 for a value that a fresh output of an earlier execution had
fn normalize(obs: &[Rec], run: u64, seen: &mut HashMap<Tok, u64>) -> String {
    let mut local: HashMap<Tok, i64> = HashMap::new();
    let mut out = vec![];
    for o in obs {
        let mut os = vec![];
        for (l, ts) in &o.o {
            let mut q = vec![];
            for t in ts {
                q.push(match seen.get(t) {
                    Some(r) if *r != run => -1,
                    _ => {
                        if o.fresh {
                            seen.insert(*t, run);
                        }
                        let n = local.len() as i64 + 1;
                        *local.entry(*t).or_insert(n)
                    }
                });
            }
            os.push(json!({"l": l, "t": q}));
        }
        out.push(json!({"r": o.r, "o": os}));
    }
    Value::Array(out).to_string()
}

pub fn batch(args: &HashMap<String, String>) {
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let seed: u64 = get("seed", "1").parse().unwrap();
    let secs: f64 = get("secs", "10").parse().unwrap();
    let scens: Vec<Scen> = std::io::BufReader::new(std::fs::File::open(&args["in"]).expect("HARNESS in"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| parse(&l))
        .collect();
    let single = args.contains_key("as");
    let shift: u64 = get("as", "0").parse().unwrap();
    let rep0: u64 = get("rep", "0").parse().unwrap();
    crate::watch::init(args.get("watch"), 8);
    let t0 = Instant::now();
    let mut seen: HashMap<Tok, u64> = HashMap::new();
    let mut dedupe: HashMap<(usize, String), (u64, u64)> = HashMap::new();
    let mut order: Vec<(usize, String)> = vec![];
    let (mut run, mut events, mut pass) = (0u64, 0u64, 0u64);
    'all: loop {
        let mut units: Vec<(usize, u64)> = vec![];
        if single {
            units.push((0, rep0));
        } else {
            for (i, s) in scens.iter().enumerate() {
                for w in 0..s.w as u64 {
                    units.push((i, pass * s.w as u64 + w));
                }
            }
        }
        for chunk in units.chunks(4096) {
            if pass > 0 && t0.elapsed().as_secs_f64() > secs {
                break 'all;
            }
            let next = AtomicUsize::new(0);
            let res: Mutex<Vec<Option<Vec<Rec>>>> = Mutex::new(vec![None; chunk.len()]);
            std::thread::scope(|s| {
                for slot in 0..8 {
                    let (next, res, chunk, scens, t0) = (&next, &res, &chunk, &scens, &t0);
                    s.spawn(move || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= chunk.len() || (pass > 0 && t0.elapsed().as_secs_f64() > secs) {
                            break;
                        }
                        let (sc, rep) = chunk[i];
                        let sseed = tok(format!("{}/{}/{}", seed, sc as u64 + shift, rep).as_bytes()) as u64;
                        crate::watch::begin(slot, sc, rep);
                        let o = execute(&scens[sc], sseed, rep);
                        crate::watch::end(slot);
                        res.lock().unwrap()[i] = Some(o);
                    });
                }
            });
            for (i, o) in res.into_inner().unwrap().into_iter().enumerate() {
                let Some(o) = o else { continue };
                run += 1;
                events += o.len() as u64;
                let n = normalize(&o, run, &mut seen);
                let e = dedupe.entry((chunk[i].0, n.clone())).or_insert_with(|| {
                    order.push((chunk[i].0, n));
                    (0, chunk[i].1)
                });
                e.0 += 1;
            }
        }
        pass += 1;
        if single {
            break;
        }
    }
    let mut w = BufWriter::new(std::fs::File::create(&args["out"]).expect("HARNESS out"));
    writeln!(w, "{}", json!({"total": run, "events": events, "passes": pass, "seed": seed, "scenarios": scens.len(), "distinct": order.len()})).unwrap();
    for (sc, n) in &order {
        let (cnt, rep) = dedupe[&(*sc, n.clone())];
        let s = &scens[*sc];
        writeln!(w, "{{\"sc\":{},\"rep\":{},\"cnt\":{},\"p\":\"{}\",\"set\":\"{}\",\"ops\":{},\"obs\":{}}}", sc + 1, rep, cnt, s.p, s.set, s.raw, n).unwrap();
    }
    w.flush().unwrap();
    eprintln!("lh: {} scenarios, {} passes, {} runs, {} events, {} distinct, {:.1}s", scens.len(), pass, run, events, order.len(), t0.elapsed().as_secs_f64());
}
