//! Runs the histories of spec/HashApi.tla on the hash functions and the AES of pqcrypto-internals, and records outputs with the
//! inputs that, by the specification, they belong to; spec/HashTrace.tla computes them again.
//! Outputs that differ between two ways of computing them are always recorded, of the others a sample.
use crate::dict::dict;
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};

// every context is an array of at most this many words
type Ctx = [u64; 128];
macro_rules! c_api {
    ($($f:ident),*; $($init:ident),*; $($fin:ident),*; $($clone:ident),*; $($abs:ident),*; $($outf:ident),*; $($one:ident),*; $($xof:ident),*) => {
        extern "C" {
            $(fn $f(c: *mut Ctx, i: *const u8, n: usize);)*
            $(fn $init(c: *mut Ctx);)*
            $(fn $fin(c: *mut Ctx);)*
            $(fn $clone(d: *mut Ctx, s: *const Ctx);)*
            $(fn $abs(o: *mut u8, c: *mut Ctx);)*
            $(fn $outf(o: *mut u8, n: usize, c: *mut Ctx);)*
            $(fn $one(o: *mut u8, i: *const u8, n: usize);)*
            $(fn $xof(o: *mut u8, n: usize, i: *const u8, m: usize);)*
        }
    };
}
c_api! {
    shake128_inc_absorb, shake256_inc_absorb, cshake128_inc_absorb, cshake256_inc_absorb, sha3_256_inc_absorb, sha3_384_inc_absorb,
    sha3_512_inc_absorb, shake128_absorb, shake256_absorb, sha224_inc_blocks, sha256_inc_blocks, sha384_inc_blocks, sha512_inc_blocks;
    shake128_inc_init, shake256_inc_init, sha3_256_inc_init, sha3_384_inc_init, sha3_512_inc_init, sha224_inc_init, sha256_inc_init,
    sha384_inc_init, sha512_inc_init;
    shake128_inc_finalize, shake256_inc_finalize, cshake128_inc_finalize, cshake256_inc_finalize;
    shake128_inc_ctx_clone, shake256_inc_ctx_clone, cshake128_inc_ctx_clone, cshake256_inc_ctx_clone, sha3_256_inc_ctx_clone,
    sha3_384_inc_ctx_clone, sha3_512_inc_ctx_clone, shake128_ctx_clone, shake256_ctx_clone, sha224_inc_ctx_clone, sha256_inc_ctx_clone,
    sha384_inc_ctx_clone, sha512_inc_ctx_clone;
    sha3_256_inc_finalize, sha3_384_inc_finalize, sha3_512_inc_finalize;
    shake128_inc_squeeze, shake256_inc_squeeze, cshake128_inc_squeeze, cshake256_inc_squeeze, shake128_squeezeblocks, shake256_squeezeblocks;
    sha3_256, sha3_384, sha3_512, sha224, sha256, sha384, sha512;
    shake128, shake256
}
extern "C" {
    fn cshake128_inc_init(c: *mut Ctx, n: *const u8, nl: usize, s: *const u8, sl: usize);
    fn cshake256_inc_init(c: *mut Ctx, n: *const u8, nl: usize, s: *const u8, sl: usize);
    fn cshake128(o: *mut u8, ol: usize, n: *const u8, nl: usize, s: *const u8, sl: usize, i: *const u8, il: usize);
    fn cshake256(o: *mut u8, ol: usize, n: *const u8, nl: usize, s: *const u8, sl: usize, i: *const u8, il: usize);
    fn sha224_inc_finalize(o: *mut u8, c: *mut Ctx, i: *const u8, n: usize);
    fn sha256_inc_finalize(o: *mut u8, c: *mut Ctx, i: *const u8, n: usize);
    fn sha384_inc_finalize(o: *mut u8, c: *mut Ctx, i: *const u8, n: usize);
    fn sha512_inc_finalize(o: *mut u8, c: *mut Ctx, i: *const u8, n: usize);
    fn aes128_ecb_keyexp(r: *mut Ctx, key: *const u8);
    fn aes192_ecb_keyexp(r: *mut Ctx, key: *const u8);
    fn aes256_ecb_keyexp(r: *mut Ctx, key: *const u8);
    fn aes128_ctr_keyexp(r: *mut Ctx, key: *const u8);
    fn aes192_ctr_keyexp(r: *mut Ctx, key: *const u8);
    fn aes256_ctr_keyexp(r: *mut Ctx, key: *const u8);
    fn aes128_ecb(o: *mut u8, i: *const u8, n: usize, c: *const Ctx);
    fn aes192_ecb(o: *mut u8, i: *const u8, n: usize, c: *const Ctx);
    fn aes256_ecb(o: *mut u8, i: *const u8, n: usize, c: *const Ctx);
    fn aes128_ctr(o: *mut u8, n: usize, iv: *const u8, c: *const Ctx);
    fn aes192_ctr(o: *mut u8, n: usize, iv: *const u8, c: *const Ctx);
    fn aes256_ctr(o: *mut u8, n: usize, iv: *const u8, c: *const Ctx);
    fn seedexpander_init(c: *mut Ctx, seed: *const u8, div: *const u8, max: usize) -> i32;
    fn seedexpander(c: *mut Ctx, x: *mut u8, n: usize) -> i32;
}

/// room around inputs and outputs; none where AddressSanitizer watches
const AROUND: usize = if cfg!(debug_assertions) { 0 } else { 32 };

/// bytes at an address of any alignment
struct Un(Vec<u8>, usize);
impl Un {
    fn new(b: &[u8], k: usize) -> Un {
        let mut v = vec![0xa5u8; k + b.len() + AROUND];
        v[k..k + b.len()].copy_from_slice(b);
        Un(v, k)
    }
    fn p(&self) -> *const u8 {
        self.0[self.1..].as_ptr()
    }
    fn len(&self) -> usize {
        self.0.len() - self.1 - AROUND
    }
}
/// an output buffer whose surroundings must stay as they are
fn output(n: usize, f: impl FnOnce(*mut u8)) -> Vec<u8> {
    let mut v = vec![0x5au8; n + 2 * AROUND];
    f(v[AROUND..].as_mut_ptr());
    let ok = v[..AROUND].iter().chain(&v[AROUND + n..]).all(|b| *b == 0x5a);
    let mut o = v[AROUND..AROUND + n].to_vec();
    if !ok {
        o.push(0) // a wrong length is what the specification sees
    }
    o
}

const XOF: [&str; 4] = ["shake128", "shake256", "cshake128", "cshake256"];
const FIX: [&str; 3] = ["sha3_256", "sha3_384", "sha3_512"];
const MD: [&str; 4] = ["sha224", "sha256", "sha384", "sha512"];

fn rate(a: &str) -> usize {
    match a {
        "shake128" | "cshake128" => 168,
        "shake256" | "cshake256" | "sha3_256" => 136,
        "sha3_384" => 104,
        "sha3_512" => 72,
        "sha224" | "sha256" => 64,
        _ => 128,
    }
}
fn digest_len(a: &str) -> usize {
    match a {
        "sha224" => 28,
        "sha256" | "sha3_256" => 32,
        "sha384" | "sha3_384" => 48,
        _ => 64,
    }
}

#[derive(Clone, Default)]
struct Names(Vec<u8>, Vec<u8>);

fn one_shot(a: &str, nm: &Names, d: &[u8], n: usize, al: usize) -> Vec<u8> {
    let d = Un::new(d, al);
    let l = d.len();
    output(n, |o| unsafe {
        match a {
            "shake128" => shake128(o, n, d.p(), l),
            "shake256" => shake256(o, n, d.p(), l),
            "cshake128" => cshake128(o, n, nm.0.as_ptr(), nm.0.len(), nm.1.as_ptr(), nm.1.len(), d.p(), l),
            "cshake256" => cshake256(o, n, nm.0.as_ptr(), nm.0.len(), nm.1.as_ptr(), nm.1.len(), d.p(), l),
            "sha3_256" => sha3_256(o, d.p(), l),
            "sha3_384" => sha3_384(o, d.p(), l),
            "sha3_512" => sha3_512(o, d.p(), l),
            "sha224" => sha224(o, d.p(), l),
            "sha256" => sha256(o, d.p(), l),
            "sha384" => sha384(o, d.p(), l),
            "sha512" => sha512(o, d.p(), l),
            x => panic!("HARNESS hash {x}"),
        }
    })
}
fn init(a: &str, nm: &Names, c: &mut Ctx) {
    unsafe {
        match a {
            "shake128" => shake128_inc_init(c),
            "shake256" => shake256_inc_init(c),
            "cshake128" => cshake128_inc_init(c, nm.0.as_ptr(), nm.0.len(), nm.1.as_ptr(), nm.1.len()),
            "cshake256" => cshake256_inc_init(c, nm.0.as_ptr(), nm.0.len(), nm.1.as_ptr(), nm.1.len()),
            "sha3_256" => sha3_256_inc_init(c),
            "sha3_384" => sha3_384_inc_init(c),
            "sha3_512" => sha3_512_inc_init(c),
            "sha224" => sha224_inc_init(c),
            "sha256" => sha256_inc_init(c),
            "sha384" => sha384_inc_init(c),
            _ => sha512_inc_init(c),
        }
    }
}
fn absorb(k: &str, a: &str, c: &mut Ctx, d: &[u8], al: usize) {
    let l = d.len();
    let d = Un::new(d, al);
    unsafe {
        match (k, a) {
            ("blk", "shake128") => shake128_absorb(c, d.p(), l),
            ("blk", _) => shake256_absorb(c, d.p(), l),
            (_, "shake128") => shake128_inc_absorb(c, d.p(), l),
            (_, "shake256") => shake256_inc_absorb(c, d.p(), l),
            (_, "cshake128") => cshake128_inc_absorb(c, d.p(), l),
            (_, "cshake256") => cshake256_inc_absorb(c, d.p(), l),
            (_, "sha3_256") => sha3_256_inc_absorb(c, d.p(), l),
            (_, "sha3_384") => sha3_384_inc_absorb(c, d.p(), l),
            (_, "sha3_512") => sha3_512_inc_absorb(c, d.p(), l),
            (_, "sha224") => sha224_inc_blocks(c, d.p(), l / 64),
            (_, "sha256") => sha256_inc_blocks(c, d.p(), l / 64),
            (_, "sha384") => sha384_inc_blocks(c, d.p(), l / 128),
            _ => sha512_inc_blocks(c, d.p(), l / 128),
        }
    }
}
fn finish(a: &str, c: &mut Ctx, d: &[u8], al: usize) -> Vec<u8> {
    let l = d.len();
    let d = Un::new(d, al);
    let n = if XOF.contains(&a) { 0 } else { digest_len(a) };
    output(n, |o| unsafe {
        match a {
            "shake128" => shake128_inc_finalize(c),
            "shake256" => shake256_inc_finalize(c),
            "cshake128" => cshake128_inc_finalize(c),
            "cshake256" => cshake256_inc_finalize(c),
            "sha3_256" => sha3_256_inc_finalize(o, c),
            "sha3_384" => sha3_384_inc_finalize(o, c),
            "sha3_512" => sha3_512_inc_finalize(o, c),
            "sha224" => sha224_inc_finalize(o, c, d.p(), l),
            "sha256" => sha256_inc_finalize(o, c, d.p(), l),
            "sha384" => sha384_inc_finalize(o, c, d.p(), l),
            _ => sha512_inc_finalize(o, c, d.p(), l),
        }
    })
}
fn squeeze(k: &str, a: &str, c: &mut Ctx, n: usize) -> Vec<u8> {
    output(n, |o| unsafe {
        match (k, a) {
            ("blk", "shake128") => shake128_squeezeblocks(o, n / 168, c),
            ("blk", _) => shake256_squeezeblocks(o, n / 136, c),
            (_, "shake128") => shake128_inc_squeeze(o, n, c),
            (_, "shake256") => shake256_inc_squeeze(o, n, c),
            (_, "cshake128") => cshake128_inc_squeeze(o, n, c),
            _ => cshake256_inc_squeeze(o, n, c),
        }
    })
}
fn copy(k: &str, a: &str, d: &mut Ctx, s: &Ctx) {
    unsafe {
        match (k, a) {
            ("blk", "shake128") => shake128_ctx_clone(d, s),
            ("blk", _) => shake256_ctx_clone(d, s),
            (_, "shake128") => shake128_inc_ctx_clone(d, s),
            (_, "shake256") => shake256_inc_ctx_clone(d, s),
            (_, "cshake128") => cshake128_inc_ctx_clone(d, s),
            (_, "cshake256") => cshake256_inc_ctx_clone(d, s),
            (_, "sha3_256") => sha3_256_inc_ctx_clone(d, s),
            (_, "sha3_384") => sha3_384_inc_ctx_clone(d, s),
            (_, "sha3_512") => sha3_512_inc_ctx_clone(d, s),
            (_, "sha224") => sha224_inc_ctx_clone(d, s),
            (_, "sha256") => sha256_inc_ctx_clone(d, s),
            (_, "sha384") => sha384_inc_ctx_clone(d, s),
            _ => sha512_inc_ctx_clone(d, s),
        }
    }
}

/// a length for the specification's class n (its blocks have 3 symbols)
fn length(n: u64, whole: bool, r: usize, first: bool, g: &mut StdRng) -> usize {
    if !whole && !first && !dict().is_empty() && g.gen_range(0..8) == 0 {
        return dict().len(g.gen());
    }
    match n {
        0 => 0,
        1 if first => 1,
        1 => g.gen_range(1..r - 1),
        2 => r - 1,
        3 => r,
        4 if first => r + 1,
        4 => g.gen_range(r + 1..2 * r),
        6 => 2 * r,
        7 if first => 2 * r + 1,
        _ => 2 * r + g.gen_range(1..r),
    }
}

struct Out {
    f: BufWriter<std::fs::File>,
    count: HashMap<String, usize>,
    bad: HashMap<String, usize>,
    ops: u64,
}
impl Out {
    /// records: all that differ (up to 5 of a kind), and of the others so many of a kind
    fn rec(&mut self, key: String, limit: usize, differs: bool, v: impl FnOnce() -> Value) {
        self.ops += 1;
        let (m, lim) = if differs { (&mut self.bad, 5) } else { (&mut self.count, limit) };
        let n = m.entry(key).or_insert(0);
        if *n < lim {
            *n += 1;
            writeln!(self.f, "{}", v()).unwrap();
        }
    }
}
fn hash_rec(a: &str, nm: &Names, d: &[u8], off: usize, out: &[u8], n: usize, why: &str) -> Value {
    json!({"alg": a, "name": nm.0, "cust": nm.1, "d": d, "off": off, "n": n, "out": out, "why": why})
}

fn names(a: &str, g: &mut StdRng) -> Names {
    if a.starts_with('c') {
        let mut n = Names(vec![0; [0usize, 0, 1, 4, 8][g.gen_range(0..5)]], vec![0; [1usize, 5, 31, 32, 100, 124, 131, 132, 156, 163, 164, 200, 300][g.gen_range(0..13)]]);
        g.fill_bytes(&mut n.0);
        g.fill_bytes(&mut n.1);
        n
    } else {
        Names::default()
    }
}

fn history(k: &str, ops: &[Value], a: &str, first: bool, g: &mut StdRng, o: &mut Out, limit: usize) {
    let r = rate(a);
    let mut c = [[0x1111111111111111u64; 128]; 3];
    let nm = names(a, g);
    let mut pieces: Vec<Vec<u8>> = vec![];
    let mut lens: Vec<usize> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let f = |x: &str| op[x].as_u64().unwrap();
        let ids = |x: &str| op[x].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize - 1).collect::<Vec<_>>();
        let (s, n, al) = (f("s") as usize, f("n"), g.gen_range(0..8));
        let act = op["a"].as_str().unwrap();
        let whole = match act {
            "abs" => k == "md",
            "sqz" => k == "blk",
            _ => false,
        };
        let l = length(n, whole, r, first, g);
        let mut p = vec![0u8; l];
        g.fill_bytes(&mut p);
        pieces.push(p);
        lens.push(l);
        let got = match act {
            "init" => {
                init(a, &nm, &mut c[s]);
                continue;
            }
            "abs" => {
                absorb(k, a, &mut c[s], &pieces[i], al);
                continue;
            }
            "clone" => {
                let t = f("t") as usize;
                let from = c[s];
                copy(k, a, &mut c[t], &from);
                continue;
            }
            "fin" => {
                let out = finish(a, &mut c[s], &pieces[i], al);
                if k == "xof" {
                    continue;
                }
                out
            }
            "sqz" => squeeze(k, a, &mut c[s], l),
            x => panic!("HARNESS op {x}"),
        };
        let d: Vec<u8> = ids("d").iter().flat_map(|x| pieces[*x].iter().copied()).collect();
        let off: usize = ids("o").iter().map(|x| lens[*x]).sum();
        let n = if act == "fin" { digest_len(a) } else { l };
        let want = one_shot(a, &nm, &d, off + n, al);
        let differs = want.len() != off + n || got != want[off..];
        let key = format!("{k} {a} {act}");
        o.rec(key, limit, differs, || hash_rec(a, &nm, &d, off, &got, n, &format!("{k}: operation {} of {}", i + 1, ops.iter().map(|x| format!("{}({})", x["a"].as_str().unwrap(), x["n"])).collect::<Vec<_>>().join(" "))));
        if differs {
            // which of the two is wrong is for the specification to say
            o.rec(format!("one {k} {a} {act}"), limit, true, || hash_rec(a, &nm, &d, off, &want[off.min(want.len())..], n, "in one call"));
        }
    }
}

/// every length modulo the block size, in one call
fn sweep(o: &mut Out, g: &mut StdRng, step: usize) {
    for a in XOF.iter().chain(&FIX).chain(&MD) {
        let r = rate(a);
        let at = g.gen_range(0..step);
        for l in (0..=r + 1).filter(|l| (l + at) % step == 0 || (l % r) + 2 > r || l % r < 2 || (MD.contains(a) && (l % r) * 8 / r >= 6)) {
            let nm = names(a, g);
            let l = if g.gen_range(0..4) == 0 { l + r } else { l };
            let mut d = vec![0u8; l];
            g.fill_bytes(&mut d);
            let n = if XOF.contains(a) { [0, 1, 32, r - 1, r, r + 1, 2 * r + 5][g.gen_range(0..7)] } else { digest_len(a) };
            let got = one_shot(a, &nm, &d, n, g.gen_range(0..8));
            o.rec(format!("sweep {a}"), usize::MAX, false, || hash_rec(a, &nm, &d, 0, &got, n, "in one call"));
        }
    }
}

/// random divisions of longer inputs, against one call
fn bulk(o: &mut Out, g: &mut StdRng, n: usize) {
    for i in 0..n {
        let all: Vec<&str> = XOF.iter().chain(&FIX).chain(&MD).copied().collect();
        let a = all[i % all.len()];
        let nm = names(a, g);
        let r = rate(a);
        let l = if !dict().is_empty() && i % 3 == 0 { dict().len(g.gen()) } else { g.gen_range(0..[r, 4 * r, 3000][i / 11 % 3]) };
        let mut d = vec![0u8; l];
        g.fill_bytes(&mut d);
        let mut c = [0u64; 128];
        init(a, &nm, &mut c);
        let k = if MD.contains(&a) { "md" } else if FIX.contains(&a) { "fix" } else { "xof" };
        let (mut at, mut off) = (0, 0);
        while at < l {
            let m = if k == "md" { g.gen_range(0..=(l - at) / r).min(3) * r } else { g.gen_range(0..=(l - at).min(2 * r)) };
            absorb(k, a, &mut c, &d[at..at + m], m % 8);
            at += m;
            if k == "md" && (l - at < r || g.gen_range(0..4) == 0) {
                break;
            }
        }
        let got = finish(a, &mut c, &d[at..], i % 8);
        if k != "xof" {
            let want = one_shot(a, &nm, &d, digest_len(a), i % 5);
            o.rec(format!("bulk {a}"), 2, got != want, || hash_rec(a, &nm, &d, 0, &got, digest_len(a), "random division"));
            if got != want {
                o.rec(format!("bulk one {a}"), 2, true, || hash_rec(a, &nm, &d, 0, &want, digest_len(a), "in one call"));
            }
            continue;
        }
        for _ in 0..g.gen_range(1..4) {
            let m = g.gen_range(0..2 * r);
            let got = squeeze(k, a, &mut c, m);
            let want = one_shot(a, &nm, &d, off + m, i % 5);
            let bad = want.len() != off + m || got != want[off..];
            o.rec(format!("bulk {a}"), 3, bad, || hash_rec(a, &nm, &d, off, &got, m, "random division"));
            if bad {
                o.rec(format!("bulk one {a}"), 2, true, || hash_rec(a, &nm, &d, off, &want[off.min(want.len())..], m, "in one call"));
            }
            off += m;
        }
    }
}

/// very long inputs: digest of m, and of m, its padding and some more (see ExtOk)
fn extension(o: &mut Out, g: &mut StdRng, logs: &[u32]) {
    let mut chunk = vec![0u8; 1 << 20];
    g.fill_bytes(&mut chunk);
    for a in ["sha256", "sha512"] {
        let r = rate(a);
        for lg in logs {
            let mut c = [[0u64; 128]; 2];
            init(a, &Names::default(), &mut c[0]);
            let whole = (1u64 << lg) + g.gen_range(0..20000u64) / r as u64 * r as u64;
            let mut left = whole;
            while left > 0 {
                let n = left.min(chunk.len() as u64) as usize;
                absorb("md", a, &mut c[0], &chunk[..n], 0);
                left -= n as u64;
            }
            let from = c[0];
            copy("md", a, &mut c[1], &from);
            let mut tail = vec![0u8; g.gen_range(0..r)];
            let mut s = vec![0u8; g.gen_range(0..2 * r)];
            g.fill_bytes(&mut tail);
            g.fill_bytes(&mut s);
            let total = whole + tail.len() as u64;
            let d1 = finish(a, &mut c[0], &tail, 1);
            let mut pad = vec![0x80u8];
            while (tail.len() + pad.len() + r / 8) % r != 0 {
                pad.push(0);
            }
            pad.resize(pad.len() + r / 8 - 8, 0);
            pad.extend((total * 8).to_be_bytes());
            absorb("md", a, &mut c[1], &[tail, pad.clone()].concat(), 3);
            let out = finish(a, &mut c[1], &s, 5);
            o.rec(format!("ext {a}"), usize::MAX, false, || json!({"alg": "ext", "of": a, "hi": total >> 24, "lo": total & 0xffffff, "d1": d1, "pad": pad, "s": s, "out": out, "why": format!("after {total} bytes")}));
        }
    }
    // the others cannot be extended
    for a in MD {
        let mut d = vec![0u8; 8192 + g.gen_range(0..300)];
        g.fill_bytes(&mut d);
        let got = one_shot(a, &Names::default(), &d, digest_len(a), 1);
        o.rec("long".into(), usize::MAX, false, || hash_rec(a, &Names::default(), &d, 0, &got, digest_len(a), "a long input"));
    }
    // and names which need more bytes for their lengths
    for (a, n, s) in [("cshake128", 8192, 3), ("cshake256", 5, 8191), ("cshake128", 0, 8195), ("cshake256", 31, 32)] {
        let mut nm = Names(vec![0; n], vec![0; s]);
        g.fill_bytes(&mut nm.0);
        g.fill_bytes(&mut nm.1);
        let got = one_shot(a, &nm, &[7, 8, 9], 40, 1);
        o.rec("names".into(), usize::MAX, false, || hash_rec(a, &nm, &[7, 8, 9], 0, &got, 40, "long names"));
    }
}

fn aes_key(ks: usize, ctr: bool, key: &[u8]) -> Box<Ctx> {
    let mut c = Box::new([0u64; 128]);
    unsafe {
        match (ks, ctr) {
            (16, false) => aes128_ecb_keyexp(&mut *c, key.as_ptr()),
            (24, false) => aes192_ecb_keyexp(&mut *c, key.as_ptr()),
            (_, false) => aes256_ecb_keyexp(&mut *c, key.as_ptr()),
            (16, true) => aes128_ctr_keyexp(&mut *c, key.as_ptr()),
            (24, true) => aes192_ctr_keyexp(&mut *c, key.as_ptr()),
            (_, true) => aes256_ctr_keyexp(&mut *c, key.as_ptr()),
        }
    }
    c
}
fn ecb(ks: usize, c: &Ctx, d: &[u8], al: usize) -> Vec<u8> {
    let n = d.len() / 16;
    let d = Un::new(d, al);
    output(16 * n, |o| unsafe {
        match ks {
            16 => aes128_ecb(o, d.p(), n, c),
            24 => aes192_ecb(o, d.p(), n, c),
            _ => aes256_ecb(o, d.p(), n, c),
        }
    })
}
fn ctr(ks: usize, c: &Ctx, iv: &[u8], n: usize) -> Vec<u8> {
    output(n, |o| unsafe {
        match ks {
            16 => aes128_ctr(o, n, iv.as_ptr(), c),
            24 => aes192_ctr(o, n, iv.as_ptr(), c),
            _ => aes256_ctr(o, n, iv.as_ptr(), c),
        }
    })
}

fn aes(o: &mut Out, g: &mut StdRng, n: usize) {
    for i in 0..n {
        let ks = [16, 24, 32][i % 3];
        let mut key = vec![0u8; ks];
        let mut iv = vec![0u8; 12];
        if i % 7 != 6 {
            g.fill_bytes(&mut key);
            g.fill_bytes(&mut iv);
        } else {
            key[i / 7 % ks] = 1 << (i % 8);
        }
        // blocks
        let (ce, cc) = (aes_key(ks, false, &key), aes_key(ks, true, &key));
        let mut d = vec![0u8; 16 * g.gen_range(0..10)];
        g.fill_bytes(&mut d);
        let got = ecb(ks, &ce, &d, i % 8);
        let single: Vec<u8> = d.chunks(16).flat_map(|b| ecb(ks, &ce, b, 0)).collect();
        let r = |out: &[u8], d: &[u8]| json!({"alg": "ecb", "key": key, "d": d, "out": out, "why": format!("{} blocks", d.len() / 16)});
        o.rec(format!("ecb {ks}"), 12, got != single, || r(&got, &d));
        if got != single {
            for b in d.chunks(16) {
                let one = ecb(ks, &ce, b, 0);
                o.rec(format!("ecb one {ks}"), 0, true, || r(&one, b));
            }
        }
        // the key stream
        let big = i % 40 == 5;
        let l = match i % 5 {
            _ if big => 16 * 65536 + 16 * g.gen_range(0..400) + g.gen_range(0..64),
            0 => g.gen_range(0..70),
            1 => 16 * g.gen_range(0..10),
            2 if !dict().is_empty() => dict().len(g.gen()),
            _ => g.gen_range(0..9000),
        };
        let got = ctr(ks, &cc, &iv, l);
        let bl = |b: usize| {
            let mut x = iv.clone();
            x.extend((b as u32).to_be_bytes());
            x
        };
        let want: Vec<u8> = (0..(l + 15) / 16).flat_map(|b| bl(b)).collect();
        let mut want = ecb(ks, &ce, &want, 0);
        want.truncate(l);
        let slice = |off: usize, m: usize, v: &[u8]| {
            json!({"alg": "ctr", "key": key, "iv": iv, "off": off, "out": v[off.min(v.len())..(off + m).min(v.len())], "n": m, "why": format!("bytes from {off} of {l}")})
        };
        let bad = got != want;
        let off = if bad {
            got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(l.saturating_sub(1))
        } else if big {
            [16 * 65536 - 8, 4096 - 8, l.saturating_sub(20)][g.gen_range(0..3)]
        } else {
            [0, l.saturating_sub(33), (4096 - 8usize).min(l)][g.gen_range(0..3)]
        };
        let off = off.min(l);
        let m = if got.len() != l { l - off + 1 } else { (l - off).min(40) };
        o.rec(format!("ctr {ks} {}", if big { "big" } else { "" }), if big { 4 } else { 14 }, bad, || slice(off, m, &got));
        if bad {
            o.rec(format!("ctr one {ks}"), 0, true, || slice(off, (l - off).min(40), &want));
        }
        // the seed expander: requests until it is exhausted, and some after
        let mut seed = [0u8; 32];
        let mut div = [0u8; 8];
        g.fill_bytes(&mut seed);
        g.fill_bytes(&mut div);
        let far = i % 100 == 50;
        let max = if far { 1 << 24 } else { 0 } + [0usize, 1, 2, 16, 17, 48, 100, 300, 5000, 65536, 70000, 16777217, 1 << 30][g.gen_range(0..13)];
        let mut c = Box::new([0x77u64; 128]);
        let ini = unsafe { seedexpander_init(&mut *c, seed.as_ptr(), div.as_ptr(), max) };
        let mut reqs = vec![];
        let mut left = max;
        for j in 0..if far { 6 } else { g.gen_range(1..9) } {
            let m = match g.gen_range(0..8) {
                _ if far && j == 3 => 16 * 65536 + g.gen_range(0..100),
                0 => left,
                1 => left.saturating_sub(1),
                2 => left + g.gen_range(0..3),
                3 => 16,
                4 => 0,
                5 => g.gen_range(0..6000),
                _ => g.gen_range(0..40),
            };
            if m > 400000 && !(far && j == 3) {
                continue;
            }
            let mut ret = 0;
            let nil = i % 20 == 19 && j == 2;
            let out = output(m, |x| ret = unsafe { seedexpander(&mut *c, if nil { std::ptr::null_mut() } else { x }, m) });
            let t = out.len() - out.len().min(33);
            reqs.push(json!({"n": m, "ret": ret, "nil": nil, "head": out[..out.len().min(33)], "tail": out[t..], "len": out.len()}));
            if ret == 0 {
                left = left.saturating_sub(m)
            }
        }
        o.rec("seedexpander".into(), if n < 1000 { 60 } else { 600 }, false, || json!({"alg": "sx", "key": seed.to_vec(), "div": div.to_vec(), "max": max, "ini": ini, "reqs": reqs, "why": "requests"}));
    }
}

pub fn run(m: &HashMap<String, String>) {
    let num = |k: &str, d: usize| m.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let mut g = StdRng::seed_from_u64(num("seed", 1) as u64 ^ 0x4a5);
    let mut o = Out { f: BufWriter::new(std::fs::File::create(&m["out"]).expect("HARNESS create")), count: HashMap::new(), bad: HashMap::new(), ops: 0 };
    let reps = num("reps", 2);
    let limit = num("limit", 20);
    let lines: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&m["gen"]).expect("HARNESS open")).lines().map(|l| serde_json::from_str(&l.unwrap()).expect("HARNESS json")).collect();
    // in another order every time: the sample is the first ones
    let mut order: Vec<usize> = (0..lines.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, g.gen_range(0..=i));
    }
    for rep in 0..reps {
        for i in &order {
            let (k, ops) = (lines[*i]["k"].as_str().unwrap(), lines[*i]["ops"].as_array().unwrap());
            let algs: &[&str] = match k {
                "xof" => &XOF,
                "fix" => &FIX,
                "blk" => &XOF[..2],
                "md" => &MD,
                x => panic!("HARNESS kind {x}"),
            };
            for a in algs {
                history(k, ops, a, rep == 0, &mut g, &mut o, limit);
            }
        }
    }
    sweep(&mut o, &mut g, num("step", 6));
    bulk(&mut o, &mut g, num("bulk", 20000));
    aes(&mut o, &mut g, num("aes", 300));
    extension(&mut o, &mut g, if num("deep", 0) == 1 { &[13, 16, 21, 24, 29, 32, 33] } else { &[13, 21, 29] });
    o.f.flush().unwrap();
    println!("{}", json!({"histories": lines.len(), "operations": o.ops, "differences": o.bad.values().sum::<usize>(), "recorded": o.count.values().sum::<usize>()}));
}
