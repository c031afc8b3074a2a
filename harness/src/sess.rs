//! Uniform access to the sessions of every layer of the library, plus the two mock protocols and the
//! transparent wrapper (`Spy`) through which the scenarios look at, and tamper with, what LATKE encrypts.
use latke::chip::{Chip, ChipPwfile};
use latke::ibke::{
    fg_ibke::{FgIbkeC, FgIbkeCert},
    id_hmqv_c::IdHmqvC,
    id_sig_dh::IdSigDh,
    id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519},
};
use latke::latke::{Latke, LatkePwfile, PeerModel};
use latke::pake::{cake::Cake, cpace::Cpace, kc_spake2::KcSpake2};
use latke::{AsBytes, Id, IdCertificate, IdentityBasedKeyExchange, Pake, PartyRole, SessKey, Ssid};
use blake2::{Blake2b512, Digest};
use curve25519_dalek::{ristretto::CompressedRistretto, RistrettoPoint, Scalar};
use crate::tape::Dice;
use rand::RngCore;
use rand_core::CryptoRng;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What a step returned
pub enum Out {
    Some(Vec<u8>),
    None,
    Rej,
}

pub trait Sess: Send {
    fn run(&mut self, rng: &mut Dice, msg: &[u8]) -> Out;
    fn sim(&mut self) -> Result<Option<usize>, ()>;
    fn done(&self) -> Option<bool>;
    /// The result, or a panic
    fn fin(&self) -> (Option<Id>, SessKey);
}

// ---------------------------------------------------------------- Spy: what happens inside LATKE
#[derive(Clone)]
pub enum InnerEdit {
    /// flip bits: (offset, xor mask)
    Xor(usize, u8),
    /// overwrite at offset
    Put(usize, Vec<u8>),
    Trunc(usize),
    Ext(Vec<u8>),
}

#[derive(Default)]
pub struct SpyLog {
    /// plaintext the inner protocol produced in this step, after evil edits; None if simulated or nothing
    pub plain: Option<Vec<u8>>,
    /// plaintext before evil edits
    pub orig: Option<Vec<u8>>,
    /// length announced by run_sim in this step
    pub sim: Option<usize>,
    pub simmed: bool,
    /// inner run was called with this message
    pub got: Option<Vec<u8>>,
    pub inner_runs: usize,
    pub inner_rej: bool,
    /// evil edits to apply to the next inner plaintext
    pub evil: Option<Box<dyn FnOnce(&mut Vec<u8>) + Send>>,
}

/// Overrides used while a password file is being generated
#[derive(Default)]
pub struct GenOverride {
    /// another centre certifies (seed of that centre)
    pub centre: Option<[u8; 32]>,
    /// the key certified / the key used, as seeds of user keypairs
    pub cert_key: Option<[u8; 32]>,
    pub use_key: Option<[u8; 32]>,
    /// the identity certified is not the one claimed
    pub cert_id: Option<Id>,
    /// the certificate was issued for another identity or key, and altered
    pub issue_id: Option<Id>,
    pub issue_key: Option<[u8; 32]>,
    /// it has no certificate (or not its key) and this way of doing without
    pub way: i64,
    pub mpk: Option<Box<dyn Any>>,
}

thread_local! {
    pub static SPY: RefCell<SpyLog> = RefCell::new(SpyLog::default());
    pub static GEN: RefCell<GenOverride> = RefCell::new(GenOverride::default());
    /// a certificate could not be altered: the scenario says nothing
    pub static GAVE_UP: RefCell<bool> = RefCell::new(false);
}

fn raw<T>(x: &T) -> Vec<u8> {
    let n = std::mem::size_of::<T>();
    (0..n)
        .map(|i| unsafe { std::ptr::read_volatile((x as *const T as *const u8).add(i)) })
        .collect()
}

/// Where in a T lies (only) the byte string `b`?
fn find<T>(x: &T, b: &[u8]) -> Option<usize> {
    let h = raw(x);
    let hits: Vec<usize> = (0..(h.len() + 1).saturating_sub(b.len()))
        .filter(|o| &h[*o..*o + b.len()] == b)
        .collect();
    if b.len() >= 32 && hits.len() == 1 {
        Some(hits[0])
    } else {
        None
    }
}

/// A certificate issued for (iid, key ikey) that its holder altered to say (id, key): what a cheat with a
/// debugger or a fork of the library does. None if this type of certificate cannot be altered that way.
fn alter<I: IdentityBasedKeyExchange, R: RngCore + CryptoRng>(
    mut rng: R,
    msk: &I::MainPrivkey,
    iid: &Id,
    ikey: &I::UserPubkey,
    id: &Id,
    key: &I::UserPubkey,
) -> Option<I::Certificate> {
    // where things are, from a certificate made for the purpose
    let mut pid = [0u8; 32];
    rng.fill_bytes(&mut pid);
    let probe = I::extract(&mut rng, msk, &pid, ikey);
    let oid = find(&probe, &pid)?;
    let mut cert = I::extract(&mut rng, msk, iid, ikey);
    let p = &mut cert as *mut I::Certificate as *mut u8;
    let (old, new) = (raw(ikey), raw(key));
    if old.len() >= 32 {
        if std::mem::needs_drop::<I::UserPubkey>() {
            return None;
        }
        let pr = raw(&probe);
        // some stretch of the key that occurs in the certificate, always at one distance
        let mut at: Vec<usize> = vec![];
        for k in 0..=old.len() - 32 {
            let win = &old[k..k + 32];
            if win.iter().collect::<std::collections::HashSet<_>>().len() < 12 {
                continue;
            }
            if let Some(o) = find(&probe, win) {
                if o >= k && o - k + old.len() <= pr.len() && !at.contains(&(o - k)) {
                    at.push(o - k)
                }
            }
        }
        if at.len() != 1 {
            return None;
        }
        unsafe { std::ptr::copy_nonoverlapping(new.as_ptr(), p.add(at[0]), new.len()) };
    }
    unsafe { std::ptr::copy_nonoverlapping(id.as_ptr(), p.add(oid), 32) };
    if cert.id() == *id {
        Some(cert)
    } else {
        None
    }
}

/// What a cheat who has no certificate (or not its key) does to the first message it sends. The rest is the
/// library's own session, given numbers of the cheat's choosing.
#[derive(Clone)]
pub struct Patch {
    fg: bool,
    way: i64,
    id: Id,
    /// the user key it claims (hm), or X (fg), compressed
    a: [u8; 32],
    mpk: [u8; 32],
    peer: Option<Id>,
}

fn point(b: &[u8]) -> Option<RistrettoPoint> {
    if b.len() == 32 {
        CompressedRistretto::from_slice(b).ok()?.decompress()
    } else {
        None
    }
}
fn hash(parts: &[&[u8]]) -> Scalar {
    let mut h = Blake2b512::new();
    for p in parts {
        h.update(p)
    }
    Scalar::from_hash(h)
}

impl Patch {
    fn apply(&self, incoming: &[u8], out: &mut [u8]) {
        let at = if self.fg { 64 } else { 0 };
        if out.len() < at + 32 {
            return;
        }
        let (eph, a, mpk) = match (point(&out[at..at + 32]), point(&self.a), point(&self.mpk)) {
            (Some(e), Some(a), m) => (e, a, m),
            _ => return,
        };
        let new = if self.fg {
            // the two contributions cancel, were it not for the plain Diffie-Hellman value
            match (self.way, mpk) {
                (3, Some(m)) => eph - a - m * hash(&[&[0x02], &self.id, &self.a]),
                _ => return,
            }
        } else {
            let them = self.peer.unwrap_or_else(|| {
                let mut i = [0u8; 32];
                if incoming.len() >= 64 {
                    i.copy_from_slice(&incoming[32..64]);
                }
                i
            });
            // contributions that cancel the claimed key, were the exponent not to depend on them
            let d = match self.way {
                1 => hash(&[&them]),
                2 => hash(&[&self.a, &them]),
                3 => Scalar::ONE,
                4 => hash(&[&self.id]),
                _ => return,
            };
            eph - a * d
        };
        out[at..at + 32].copy_from_slice(new.compress().as_bytes());
    }
}

/// A certificate and key for `id` made by somebody who knows public things only.
/// `probe`: some certificate of this type; `a`: the user key claimed
fn craft<I: IdentityBasedKeyExchange + 'static, R: RngCore + CryptoRng>(
    mut rng: R,
    way: i64,
    mpk: &I::MainPubkey,
    probe: I::Certificate,
    id: &Id,
    upk: &I::UserPubkey,
    peer: Option<Id>,
) -> Option<(I::Certificate, Patch)> {
    if TypeId::of::<I>() == TypeId::of::<IdHmqvC>() {
        let a = (upk as &dyn Any).downcast_ref::<RistrettoPoint>()?.compress().to_bytes();
        return Some((probe, Patch { fg: false, way, id: *id, a, mpk: [0; 32], peer }));
    }
    if TypeId::of::<I>() != TypeId::of::<FgIbkeC>() {
        return None;
    }
    let m = (mpk as &dyn Any).downcast_ref::<CompressedRistretto>()?.decompress()?;
    let mut cert = (&probe as &dyn Any).downcast_ref::<FgIbkeCert>()?.clone();
    let mut t = FgIbkeC::new_session(&mut rng, [0; 32], m.compress(), cert.clone(), (), PartyRole::Initiator);
    let wire = t.run(&mut rng, &[]).ok()??;
    let (ox, os) = points(&cert, &[0; 0], wire.get(32..64)?, &probe.id())?;
    let oid = find(&cert, &probe.id())?;
    let r = Scalar::random(&mut rng);
    let g = RistrettoPoint::mul_base(&r);
    let (x, xhat) = match way {
        1 => (g - m * hash(&[&[0x02], id]), r),
        2 => (g, r),
        _ => (g, Scalar::ZERO),
    };
    unsafe {
        let p = &mut cert as *mut FgIbkeCert as *mut u8;
        std::ptr::write_unaligned(p.add(ox) as *mut RistrettoPoint, x);
        std::ptr::write_unaligned(p.add(os) as *mut Scalar, xhat);
        std::ptr::copy_nonoverlapping(id.as_ptr(), p.add(oid), 32);
    }
    let out = (&cert as &dyn Any).downcast_ref::<I::Certificate>()?.clone();
    let patch = Patch { fg: true, way, id: *id, a: x.compress().to_bytes(), mpk: m.compress().to_bytes(), peer };
    Some((out, patch))
}

/// Where in something made of points, a scalar and possibly an identity lie the point with this encoding and the
/// scalar? `other`: the encoding of a second point, if there is one
fn points<T>(c: &T, other: &[u8], x: &[u8], id: &[u8]) -> Option<(usize, usize)> {
    let h = raw(c);
    let (pn, sn) = (std::mem::size_of::<RistrettoPoint>(), std::mem::size_of::<Scalar>());
    if std::mem::needs_drop::<T>() || h.len() != pn + sn + id.len() + if other.is_empty() { 0 } else { pn } {
        return None;
    }
    let at = |want: &[u8]| -> Option<usize> {
        let hits: Vec<usize> = (0..=h.len() - pn)
            .step_by(8)
            .filter(|o| {
                let p: RistrettoPoint = unsafe { std::ptr::read_unaligned(h.as_ptr().add(*o) as *const RistrettoPoint) };
                // what is no point may not like to be encoded
                catch_unwind(AssertUnwindSafe(|| p.compress().as_bytes() == want)).unwrap_or(false)
            })
            .collect();
        if hits.len() == 1 { Some(hits[0]) } else { None }
    };
    let ox = at(x)?;
    let mut used = vec![(ox, pn)];
    if !other.is_empty() {
        used.push((at(other)?, pn));
    }
    if !id.is_empty() {
        used.push((find(c, id)?, id.len()));
    }
    let os = (0..=h.len() - sn).step_by(8).find(|o| used.iter().all(|(a, n)| o + sn <= *a || a + n <= *o))?;
    Some((ox, os))
}

/// A secret key of zero, if it is a number
fn zero_key<K: Clone + 'static>(k: K) -> K {
    match (&Scalar::ZERO as &dyn Any).downcast_ref::<K>() {
        Some(z) => z.clone(),
        None => k,
    }
}

pub struct Spy<I>(I, Option<Patch>);

/// A certificate that may be carried by a party calling itself something else
#[derive(Clone)]
pub struct SpyCert<C: Clone> {
    cert: C,
    claim: Id,
    patch: Option<Patch>,
}
impl<C: Clone> IdCertificate for SpyCert<C> {
    fn id(&self) -> Id {
        self.claim
    }
}

impl<I: IdentityBasedKeyExchange + 'static> IdentityBasedKeyExchange for Spy<I> {
    type MainPubkey = I::MainPubkey;
    type MainPrivkey = I::MainPrivkey;
    type UserPubkey = I::UserPubkey;
    type UserPrivkey = I::UserPrivkey;
    type Certificate = SpyCert<I::Certificate>;
    type Error = I::Error;

    fn gen_main_keypair<R: RngCore + CryptoRng>(rng: R) -> (Self::MainPubkey, Self::MainPrivkey) {
        let (pk, sk) = I::gen_main_keypair(rng);
        GEN.with(|g| {
            if g.borrow().way > 0 {
                g.borrow_mut().mpk = Some(Box::new(pk.clone()))
            }
        });
        (pk, sk)
    }
    fn gen_user_keypair<R: RngCore + CryptoRng>(rng: R) -> (Self::UserPubkey, Self::UserPrivkey) {
        let (ck, uk) = GEN.with(|g| (g.borrow().cert_key, g.borrow().use_key));
        match (ck, uk) {
            (Some(c), Some(u)) => {
                let (pk, _) = I::gen_user_keypair(Dice::from_seed(c));
                let (_, sk) = I::gen_user_keypair(Dice::from_seed(u));
                (pk, if GEN.with(|g| g.borrow().way) > 0 { zero_key(sk) } else { sk })
            }
            _ => I::gen_user_keypair(rng),
        }
    }
    fn extract<R: RngCore + CryptoRng>(
        mut rng: R,
        msk: &Self::MainPrivkey,
        id: &Id,
        upk: &Self::UserPubkey,
    ) -> Self::Certificate {
        let (centre, cert_id) = GEN.with(|g| (g.borrow().centre, g.borrow().cert_id));
        let (iid, ikey) = GEN.with(|g| (g.borrow().issue_id, g.borrow().issue_key));
        let (way, mpk) = GEN.with(|g| {
            let g = g.borrow();
            (g.way, g.mpk.as_ref().and_then(|m| m.downcast_ref::<I::MainPubkey>().cloned()))
        });
        let real = cert_id.unwrap_or(*id);
        if way > 0 {
            let probe = I::extract(&mut rng, msk, &real, upk);
            let made = mpk.and_then(|m| craft::<I, _>(&mut rng, way, &m, probe.clone(), &real, upk, None));
            if made.is_none() {
                GAVE_UP.with(|g| *g.borrow_mut() = true);
            }
            let (cert, patch) = made.map_or((probe, None), |(c, p)| (c, Some(p)));
            return SpyCert { cert, claim: *id, patch };
        }
        let altered = if iid.is_some() || ikey.is_some() {
            let other = ikey.map(|k| I::gen_user_keypair(Dice::from_seed(k)).0);
            let c = alter::<I, _>(
                &mut rng,
                msk,
                &iid.unwrap_or(real),
                other.as_ref().unwrap_or(upk),
                &real,
                upk,
            );
            if c.is_none() {
                GAVE_UP.with(|g| *g.borrow_mut() = true);
            }
            c
        } else {
            None
        };
        let cert = if let Some(c) = altered { c } else { match centre {
            Some(c) => {
                let (_, other) = I::gen_main_keypair(Dice::from_seed(c));
                I::extract(rng, &other, &real, upk)
            }
            None => I::extract(rng, msk, &real, upk),
        }};
        let claim = if cert_id.is_some() { *id } else { cert.id() };
        SpyCert { cert, claim, patch: None }
    }
    fn new_session<R: RngCore + CryptoRng>(
        rng: R,
        ssid: Ssid,
        mpk: Self::MainPubkey,
        cert: Self::Certificate,
        usk: Self::UserPrivkey,
        role: PartyRole,
    ) -> Self {
        Spy(I::new_session(rng, ssid, mpk, cert.cert, usk, role), cert.patch)
    }
    fn run<R: RngCore + CryptoRng>(
        &mut self,
        rng: R,
        incoming_msg: &[u8],
    ) -> Result<Option<Vec<u8>>, Self::Error> {
        SPY.with(|l| {
            let mut l = l.borrow_mut();
            l.inner_runs += 1;
            l.inner_rej = true;
            l.got = Some(incoming_msg.to_vec());
        });
        let out = self.0.run(rng, incoming_msg)?;
        SPY.with(|l| {
            let mut l = l.borrow_mut();
            l.inner_rej = false;
            let mut p = out;
            if let (Some(m), Some(c)) = (p.as_mut(), self.1.take()) {
                c.apply(incoming_msg, m)
            }
            l.orig = p.clone();
            if let Some(m) = p.as_mut() {
                if let Some(evil) = l.evil.take() {
                    evil(m)
                }
            }
            l.plain = p.clone();
            Ok(p)
        })
    }
    fn run_sim(&mut self) -> Option<usize> {
        let n = self.0.run_sim();
        SPY.with(|l| {
            l.borrow_mut().sim = n;
            l.borrow_mut().simmed = true;
        });
        n
    }
    fn is_done(&self) -> bool {
        self.0.is_done()
    }
    fn finalize(&self) -> (Id, SessKey) {
        self.0.finalize()
    }
}

pub fn apply_edits(m: &mut Vec<u8>, eds: &[InnerEdit]) {
    for e in eds {
        match e {
            InnerEdit::Xor(o, x) => {
                if *o < m.len() {
                    m[*o] ^= *x
                }
            }
            InnerEdit::Put(o, b) => {
                for (i, v) in b.iter().enumerate() {
                    if o + i < m.len() {
                        m[o + i] = *v
                    }
                }
            }
            InnerEdit::Trunc(n) => m.truncate(*n),
            InnerEdit::Ext(b) => m.extend(b),
        }
    }
}

// ---------------------------------------------------------------- mock protocols
/// A PAKE that accepts anything: two random messages, the key is a function of the password alone.
pub struct MockPake {
    key: SessKey,
    first: [u8; 32],
    step: usize,
    done: bool,
}

fn mock_hash(pw: &[u8]) -> [u8; 32] {
    use sha3::{Digest, Sha3_256};
    let mut h = Sha3_256::default();
    h.input(pw);
    let mut o = [0u8; 32];
    o.copy_from_slice(&h.result());
    o
}

impl Pake for MockPake {
    type Error = ();
    fn new<R: RngCore + CryptoRng>(mut rng: R, _: Ssid, password: &[u8], role: PartyRole) -> Self {
        let mut first = [0u8; 32];
        rng.fill_bytes(&mut first);
        MockPake {
            key: mock_hash(password),
            first,
            step: if role == PartyRole::Initiator { 0 } else { 1 },
            done: false,
        }
    }
    fn run(&mut self, msg: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        let out = match self.step {
            0 => {
                assert!(msg.is_empty());
                Some(self.first.to_vec())
            }
            1 => {
                assert!(msg.len() == 32);
                self.done = true;
                Some(self.first.to_vec())
            }
            2 => {
                assert!(msg.len() == 32);
                self.done = true;
                None
            }
            _ => panic!("finished"),
        };
        self.step += 2;
        Ok(out)
    }
    fn is_done(&self) -> bool {
        self.done
    }
    fn finalize(&self) -> SessKey {
        assert!(self.done);
        self.key
    }
}

thread_local! {
    /// lengths of the three mock messages
    pub static MOCK_LENS: RefCell<[usize; 3]> = RefCell::new([32, 32, 32]);
}

#[derive(Clone)]
pub struct MockCert(Id);
impl IdCertificate for MockCert {
    fn id(&self) -> Id {
        self.0
    }
}

/// An IBKE that accepts anything: three random messages of configurable length, constant key and identity.
pub struct MockIbke {
    lens: [usize; 3],
    step: usize,
    done: bool,
}

#[derive(Clone)]
pub struct MockMpk([u8; 32]);
impl AsBytes for MockMpk {
    fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}

pub const MOCK_ID: Id = [0x4d; 32];

impl IdentityBasedKeyExchange for MockIbke {
    type MainPubkey = MockMpk;
    type MainPrivkey = ();
    type UserPubkey = ();
    type UserPrivkey = ();
    type Certificate = MockCert;
    type Error = ();
    fn gen_main_keypair<R: RngCore + CryptoRng>(mut rng: R) -> (MockMpk, ()) {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        (MockMpk(b), ())
    }
    fn gen_user_keypair<R: RngCore + CryptoRng>(_: R) -> ((), ()) {
        ((), ())
    }
    fn extract<R: RngCore + CryptoRng>(_: R, _: &(), id: &Id, _: &()) -> MockCert {
        MockCert(*id)
    }
    fn new_session<R: RngCore + CryptoRng>(
        _: R,
        _: Ssid,
        _: MockMpk,
        _: MockCert,
        _: (),
        role: PartyRole,
    ) -> Self {
        MockIbke {
            lens: MOCK_LENS.with(|l| *l.borrow()),
            step: if role == PartyRole::Initiator { 0 } else { 1 },
            done: false,
        }
    }
    fn run<R: RngCore + CryptoRng>(
        &mut self,
        mut rng: R,
        msg: &[u8],
    ) -> Result<Option<Vec<u8>>, ()> {
        if self.step == 0 {
            assert!(msg.is_empty())
        } else {
            assert!(!msg.is_empty())
        }
        let out = if self.step < 3 {
            let mut b = vec![0u8; self.lens[self.step]];
            rng.fill_bytes(&mut b);
            Some(b)
        } else {
            None
        };
        if self.step >= 2 {
            self.done = true;
        }
        assert!(self.step < 4);
        self.step += 2;
        Ok(out)
    }
    fn run_sim(&mut self) -> Option<usize> {
        let out = if self.step < 3 {
            Some(self.lens[self.step])
        } else {
            None
        };
        if self.step >= 2 {
            self.done = true;
        }
        assert!(self.step < 4);
        self.step += 2;
        out
    }
    fn is_done(&self) -> bool {
        self.done
    }
    fn finalize(&self) -> (Id, SessKey) {
        assert!(self.done);
        (MOCK_ID, [0x6b; 32])
    }
}

// ---------------------------------------------------------------- wrappers
struct PakeSess<P: Pake>(P);
impl<P: Pake + Send> Sess for PakeSess<P> {
    fn run(&mut self, _: &mut Dice, msg: &[u8]) -> Out {
        match self.0.run(msg) {
            Ok(Some(m)) => Out::Some(m),
            Ok(None) => Out::None,
            Err(_) => Out::Rej,
        }
    }
    fn sim(&mut self) -> Result<Option<usize>, ()> {
        Err(())
    }
    fn done(&self) -> Option<bool> {
        Some(self.0.is_done())
    }
    fn fin(&self) -> (Option<Id>, SessKey) {
        (None, self.0.finalize())
    }
}

struct IbkeSess<I: IdentityBasedKeyExchange>(I, Option<Patch>);
impl<I: IdentityBasedKeyExchange + Send> Sess for IbkeSess<I> {
    fn run(&mut self, rng: &mut Dice, msg: &[u8]) -> Out {
        match self.0.run(rng, msg) {
            Ok(Some(mut m)) => {
                if let Some(c) = self.1.take() {
                    c.apply(msg, &mut m)
                }
                Out::Some(m)
            }
            Ok(None) => Out::None,
            Err(_) => Out::Rej,
        }
    }
    fn sim(&mut self) -> Result<Option<usize>, ()> {
        Ok(self.0.run_sim())
    }
    fn done(&self) -> Option<bool> {
        Some(self.0.is_done())
    }
    fn fin(&self) -> (Option<Id>, SessKey) {
        let (id, k) = self.0.finalize();
        (Some(id), k)
    }
}

struct LatkeSess<I: IdentityBasedKeyExchange, P: Pake>(Latke<I, P>);
impl<I, P: Pake + Send> Sess for LatkeSess<I, P>
where
    I: IdentityBasedKeyExchange,
    Latke<I, P>: Send,
{
    fn run(&mut self, rng: &mut Dice, msg: &[u8]) -> Out {
        match self.0.run(rng, msg) {
            Some(m) => Out::Some(m),
            None => Out::None,
        }
    }
    fn sim(&mut self) -> Result<Option<usize>, ()> {
        Err(())
    }
    fn done(&self) -> Option<bool> {
        Some(self.0.is_done())
    }
    fn fin(&self) -> (Option<Id>, SessKey) {
        let (id, k) = self.0.finalize();
        (Some(id), k)
    }
}

struct ChipSess<P: Pake>(Chip<P>);
impl<P: Pake + Send> Sess for ChipSess<P> {
    fn run(&mut self, rng: &mut Dice, msg: &[u8]) -> Out {
        match self.0.run(rng, msg) {
            Ok(Some(m)) => Out::Some(m),
            Ok(None) => Out::None,
            Err(_) => Out::Rej,
        }
    }
    fn sim(&mut self) -> Result<Option<usize>, ()> {
        Err(())
    }
    fn done(&self) -> Option<bool> {
        None
    }
    fn fin(&self) -> (Option<Id>, SessKey) {
        (None, self.0.finalize())
    }
}

// ---------------------------------------------------------------- factory
/// Concrete parameters of a session
#[derive(Clone)]
pub struct Spec {
    pub lay: String,
    pub pt: String,
    pub it: String,
    pub role: PartyRole,
    pub ssid: Ssid,
    pub pw: Vec<u8>,
    pub id: Id,
    pub peer: Option<Id>,
    /// seed of the centre the session trusts (IBKE layer only)
    pub mk: [u8; 32],
    /// seed of the issuing centre; None: the password's own (LATKE)
    pub cg: Option<[u8; 32]>,
    pub cu: [u8; 32],
    pub us: [u8; 32],
    /// LATKE: leave user key generation to the library
    pub plain_keys: bool,
    /// LATKE: the certified identity, if not `id`
    pub ci: Option<Id>,
    /// what the certificate was issued for, if its holder altered it
    pub fi: Option<Id>,
    pub fu: Option<[u8; 32]>,
    /// a way to do without a certificate (or its key)
    pub w: i64,
    /// key under which credentials are shared between sessions
    pub cred: String,
}

/// Credentials of one scenario, shared by the sessions that name the same one
#[derive(Default)]
pub struct Creds(HashMap<String, Box<dyn Any>>);

fn ibke<I>(sp: &Spec, creds: &mut Creds, rng: &mut Dice) -> Box<dyn Sess>
where
    I: IdentityBasedKeyExchange + Send + 'static,
    I::Certificate: 'static,
{
    let (mpk, _) = I::gen_main_keypair(Dice::from_seed(sp.mk));
    let key = format!("i{}", sp.cred);
    if !creds.0.contains_key(&key) {
        let (_, msk) = I::gen_main_keypair(Dice::from_seed(sp.cg.unwrap_or(sp.mk)));
        let (upk, _) = I::gen_user_keypair(Dice::from_seed(sp.cu));
        let cert = if sp.fi.is_some() || sp.fu.is_some() {
            let other = I::gen_user_keypair(Dice::from_seed(sp.fu.unwrap_or(sp.cu))).0;
            let c = alter::<I, _>(&mut *rng, &msk, &sp.fi.unwrap_or(sp.id), &other, &sp.id, &upk);
            if c.is_none() {
                GAVE_UP.with(|g| *g.borrow_mut() = true);
            }
            c
        } else {
            None
        };
        let cert = cert.unwrap_or_else(|| I::extract(&mut *rng, &msk, &sp.id, &upk));
        creds.0.insert(key.clone(), Box::new(cert));
    }
    let mut cert = creds.0[&key]
        .downcast_ref::<I::Certificate>()
        .unwrap()
        .clone();
    let (_, mut usk) = I::gen_user_keypair(Dice::from_seed(sp.us));
    let mut patch = None;
    if sp.w > 0 {
        let (upk, _) = I::gen_user_keypair(Dice::from_seed(sp.cu));
        match craft::<I, _>(&mut *rng, sp.w, &mpk, cert.clone(), &sp.id, &upk, sp.peer) {
            Some((c, p)) => {
                cert = c;
                patch = Some(p);
                usk = zero_key(usk);
            }
            None => GAVE_UP.with(|g| *g.borrow_mut() = true),
        }
    }
    Box::new(IbkeSess(I::new_session(rng, sp.ssid, mpk, cert, usk, sp.role), patch))
}

fn latke<I, P>(sp: &Spec, creds: &mut Creds, rng: &mut Dice) -> Box<dyn Sess>
where
    I: IdentityBasedKeyExchange + 'static,
    P: Pake + Send + 'static,
    Latke<Spy<I>, P>: Send,
{
    let key = format!("l{}", sp.cred);
    if !creds.0.contains_key(&key) {
        GEN.with(|g| {
            *g.borrow_mut() = if sp.plain_keys {
                GenOverride::default()
            } else {
                GenOverride {
                    centre: sp.cg,
                    cert_key: Some(sp.cu),
                    use_key: Some(sp.us),
                    cert_id: sp.ci,
                    issue_id: sp.fi,
                    issue_key: sp.fu,
                    way: sp.w,
                    mpk: None,
                }
            }
        });
        let f = Latke::<Spy<I>, P>::gen_pwfile(&mut *rng, &sp.pw, &sp.id);
        GEN.with(|g| *g.borrow_mut() = GenOverride::default());
        creds.0.insert(key.clone(), Box::new(f));
    }
    let f = creds.0[&key]
        .downcast_ref::<LatkePwfile<Spy<I>>>()
        .unwrap()
        .clone();
    let peer = match sp.peer {
        None => PeerModel::PostSpecified,
        Some(id) => PeerModel::PreSpecified(id),
    };
    Box::new(LatkeSess(Latke::<Spy<I>, P>::new_session(
        rng, sp.ssid, f, sp.role, peer,
    )))
}

/// A password file for the identity sp.ci, from somebody else's
fn forge_chip<P: Pake>(rng: &mut Dice, f: &mut ChipPwfile, sp: &Spec) -> bool {
    let mut t = Chip::<P>::new_session(&mut *rng, [0; 32], f.clone(), PartyRole::Initiator, [0; 32]);
    let wire = match catch_unwind(AssertUnwindSafe(|| t.run(&mut *rng, &[]))) {
        Ok(Ok(Some(w))) if w.len() >= 32 => w,
        _ => return false,
    };
    let id = sp.ci.unwrap_or(sp.id);
    let h = raw(f);
    // the other point in it is the public key; the place of X and its value are known
    let pn = std::mem::size_of::<RistrettoPoint>();
    if h.len() < pn {
        return false;
    }
    let base = hash(&[&[0x01], &sp.pw]);
    let y = RistrettoPoint::mul_base(&base);
    let (ox, os) = match points(f, y.compress().as_bytes(), &wire[..32], &[]) {
        Some(x) => x,
        None => return false,
    };
    let r = Scalar::random(rng);
    let g = RistrettoPoint::mul_base(&r);
    let x = if sp.w == 1 { g - y * hash(&[&[0x02], &id]) } else { g };
    unsafe {
        let p = f as *mut ChipPwfile as *mut u8;
        std::ptr::write_unaligned(p.add(ox) as *mut RistrettoPoint, x);
        std::ptr::write_unaligned(p.add(os) as *mut Scalar, r);
    }
    true
}

fn chip<P: Pake + Send + 'static>(sp: &Spec, creds: &mut Creds, rng: &mut Dice) -> Box<dyn Sess> {
    let key = format!("c{}", sp.cred);
    if !creds.0.contains_key(&key) {
        let mut f = Chip::<P>::gen_pwfile(&mut *rng, sp.pw.clone(), sp.id);
        if sp.w > 0 && !forge_chip::<P>(&mut *rng, &mut f, sp) {
            GAVE_UP.with(|g| *g.borrow_mut() = true);
        }
        creds.0.insert(key.clone(), Box::new(f));
    }
    let f = creds.0[&key].downcast_ref::<ChipPwfile>().unwrap().clone();
    Box::new(ChipSess(Chip::<P>::new_session(
        rng,
        sp.ssid,
        f,
        sp.role,
        sp.peer.unwrap_or([0; 32]),
    )))
}

fn pake<P: Pake + Send + 'static>(sp: &Spec, rng: &mut Dice) -> Box<dyn Sess> {
    Box::new(PakeSess(P::new(rng, sp.ssid, &sp.pw, sp.role)))
}

struct Wit<T>(PhantomData<T>);

macro_rules! by_ibke {
    ($it:expr, $f:ident, $($a:expr),*) => {
        match $it {
            "fg" => $f::<FgIbkeC>($($a),*),
            "hm" => $f::<IdHmqvC>($($a),*),
            "sd" => $f::<IdSigDh>($($a),*),
            "se" => $f::<IdSigmaREd25519>($($a),*),
            "sq" => $f::<IdSigmaRDilithium2>($($a),*),
            "mi" => $f::<MockIbke>($($a),*),
            x => panic!("HARNESS unknown ibke {x}"),
        }
    };
}

fn latke_by_pake<I: IdentityBasedKeyExchange + 'static>(
    sp: &Spec,
    creds: &mut Creds,
    rng: &mut Dice,
) -> Box<dyn Sess>
where
    Wit<I>: Sized,
    Latke<Spy<I>, KcSpake2>: Send,
    Latke<Spy<I>, Cake>: Send,
    Latke<Spy<I>, Cpace>: Send,
    Latke<Spy<I>, MockPake>: Send,
{
    match &sp.pt[..] {
        "kc" => latke::<I, KcSpake2>(sp, creds, rng),
        "ck" => latke::<I, Cake>(sp, creds, rng),
        "cp" => latke::<I, Cpace>(sp, creds, rng),
        "mp" => latke::<I, MockPake>(sp, creds, rng),
        x => panic!("HARNESS unknown pake {x}"),
    }
}

pub fn make(sp: &Spec, creds: &mut Creds, rng: &mut Dice) -> Box<dyn Sess> {
    match &sp.lay[..] {
        "pake" => match &sp.pt[..] {
            "kc" => pake::<KcSpake2>(sp, rng),
            "ck" => pake::<Cake>(sp, rng),
            "cp" => pake::<Cpace>(sp, rng),
            "mp" => pake::<MockPake>(sp, rng),
            x => panic!("HARNESS unknown pake {x}"),
        },
        "ibke" => by_ibke!(&sp.it[..], ibke, sp, creds, rng),
        "latke" => by_ibke!(&sp.it[..], latke_by_pake, sp, creds, rng),
        "chip" => match &sp.pt[..] {
            "kc" => chip::<KcSpake2>(sp, creds, rng),
            "ck" => chip::<Cake>(sp, creds, rng),
            "cp" => chip::<Cpace>(sp, creds, rng),
            "mp" => chip::<MockPake>(sp, creds, rng),
            x => panic!("HARNESS unknown pake {x}"),
        },
        x => panic!("HARNESS unknown layer {x}"),
    }
}

/// Lengths of the fields of a message, by kind
pub fn layout(kind: &str) -> &'static [usize] {
    match kind {
        "kc1" => &[33],
        "kc2" => &[33, 32],
        "kc3" => &[32],
        "ck1" => &[672],
        "ck2" => &[736],
        "cp1" => &[16, 32],
        "cp2" => &[32],
        "mp1" | "mp2" => &[32],
        "fg1" => &[32, 32, 32],
        "fg2" => &[32, 32, 32, 32],
        "fg3" => &[32],
        "hm1" => &[32, 32, 32, 64],
        "hm2" => &[32, 32, 32, 32, 64],
        "hm3" => &[32],
        "sd1" | "sd2" => &[32, 64, 32, 32, 32, 64],
        "sg1" => &[32, 672],
        "sg2" => &[32, 736],
        "ch1" | "ch2" => &[32, 32],
        _ => &[],
    }
}
