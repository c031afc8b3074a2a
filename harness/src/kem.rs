//! Uniform view of the three Saber parameter sets, on byte strings wherever the crate has byte encodings.
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Res<T> = Result<T, String>;

/// Runs code under test; a panic is an error
pub fn guard<T>(f: impl FnOnce() -> Res<T>) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err("panic".to_string()),
    }
}

/// A CPA key pair made by the crate: the secret key has no byte encoding
pub trait CpaSecret {
    fn decapsulate(&self, ct: &[u8]) -> Res<Vec<u8>>;
}

pub trait Kem: Sync {
    /// encoded secret key
    fn keygen(&self) -> Res<Vec<u8>>;
    /// the public key inside a secret key
    fn public(&self, sk: &[u8]) -> Res<Vec<u8>>;
    /// (secret, ciphertext)
    fn encapsulate(&self, pk: &[u8]) -> Res<(Vec<u8>, Vec<u8>)>;
    fn decapsulate(&self, ct: &[u8], sk: &[u8]) -> Res<Vec<u8>>;
    fn keygen_cpa(&self) -> Res<(Vec<u8>, Box<dyn CpaSecret>)>;
    fn encapsulate_cpa(&self, pk: &[u8]) -> Res<(Vec<u8>, Vec<u8>)>;
    /// decode, encode; `how` selects one of the crate's ways to do so
    fn rt_pk(&self, b: &[u8], how: usize) -> Res<Vec<u8>>;
    fn rt_sk(&self, b: &[u8], how: usize) -> Res<Vec<u8>>;
    fn rt_ct(&self, b: &[u8], how: usize) -> Res<Vec<u8>>;
    fn rt_cpk(&self, b: &[u8], how: usize) -> Res<Vec<u8>>;
    fn rt_ss(&self, b: &[u8], how: usize) -> Res<Vec<u8>>;
    /// key generation, encapsulation and decapsulation with no byte encoding in between: all three secrets
    fn direct(&self) -> Res<(Vec<u8>, Vec<u8>)>;
}

macro_rules! kem {
    ($name:ident, $m:ident, $mm:ident) => {
        pub struct $name;
        pub mod $mm {
            use super::*;
            use ::saber::$m as k;

            struct Cpa(k::INDCPASecretKey);
            impl CpaSecret for Cpa {
                fn decapsulate(&self, ct: &[u8]) -> Res<Vec<u8>> {
                    guard(|| {
                        let ct = k::Ciphertext::from_bytes(ct).map_err(|e| e.to_string())?;
                        Ok(k::decapsulate_ind_cpa(&ct, &self.0.clone()).as_slice().to_vec())
                    })
                }
            }

            impl Kem for super::$name {
                fn keygen(&self) -> Res<Vec<u8>> {
                    guard(|| Ok(k::keygen().to_bytes().as_slice().to_vec()))
                }
                fn public(&self, sk: &[u8]) -> Res<Vec<u8>> {
                    guard(|| {
                        let sk = k::SecretKey::from_bytes(sk).map_err(|e| e.to_string())?;
                        let pk: &k::PublicKey = (&sk).into();
                        if pk.to_bytes().as_slice() != sk.public_key().to_bytes().as_slice() {
                            return Err("two public keys".into());
                        }
                        Ok(pk.clone().to_bytes().as_slice().to_vec())
                    })
                }
                fn encapsulate(&self, pk: &[u8]) -> Res<(Vec<u8>, Vec<u8>)> {
                    guard(|| {
                        let pk = k::PublicKey::from_bytes(pk).map_err(|e| e.to_string())?;
                        let (s, c) = k::encapsulate(&pk);
                        Ok((s.as_slice().to_vec(), c.as_slice().to_vec()))
                    })
                }
                fn decapsulate(&self, ct: &[u8], sk: &[u8]) -> Res<Vec<u8>> {
                    guard(|| {
                        let sk = k::SecretKey::from_bytes(sk).map_err(|e| e.to_string())?;
                        let ct = k::Ciphertext::from_bytes(ct).map_err(|e| e.to_string())?;
                        Ok(k::decapsulate(&ct, &sk.clone()).as_slice().to_vec())
                    })
                }
                fn keygen_cpa(&self) -> Res<(Vec<u8>, Box<dyn CpaSecret>)> {
                    guard(|| {
                        let (pk, sk) = k::keygen_ind_cpa();
                        let b: Box<dyn CpaSecret> = Box::new(Cpa(sk));
                        Ok((pk.to_bytes().as_slice().to_vec(), b))
                    })
                }
                fn encapsulate_cpa(&self, pk: &[u8]) -> Res<(Vec<u8>, Vec<u8>)> {
                    guard(|| {
                        let pk = k::INDCPAPublicKey::from_bytes(pk);
                        let (s, c) = k::encapsulate_ind_cpa(&pk.clone());
                        Ok((s.as_slice().to_vec(), c.as_slice().to_vec()))
                    })
                }
                fn rt_pk(&self, b: &[u8], how: usize) -> Res<Vec<u8>> {
                    guard(|| match how {
                        0 => Ok(k::PublicKey::from_bytes(b).map_err(|e| e.to_string())?.to_bytes().as_slice().to_vec()),
                        1 => {
                            let n = k::PublicKeyBytes::from_bytes(b).map_err(|e| e.to_string())?;
                            Ok(k::PublicKey::from(&n).to_bytes().into_bytes().to_vec())
                        }
                        _ => Ok(k::PublicKeyBytes::from_bytes(b).map_err(|e| e.to_string())?.into_bytes().to_vec()),
                    })
                }
                fn rt_sk(&self, b: &[u8], how: usize) -> Res<Vec<u8>> {
                    guard(|| match how {
                        0 => Ok(k::SecretKey::from_bytes(b).map_err(|e| e.to_string())?.to_bytes().as_slice().to_vec()),
                        1 => {
                            let n = k::SecretKeyBytes::from_bytes(b).map_err(|e| e.to_string())?;
                            Ok(k::SecretKey::from(&n).to_bytes().into_bytes().to_vec())
                        }
                        _ => Ok(k::SecretKeyBytes::from_bytes(b).map_err(|e| e.to_string())?.into_bytes().to_vec()),
                    })
                }
                fn rt_ct(&self, b: &[u8], how: usize) -> Res<Vec<u8>> {
                    guard(|| {
                        let n = k::Ciphertext::from_bytes(b).map_err(|e| e.to_string())?;
                        Ok(if how == 0 { n.as_slice().to_vec() } else { n.into_bytes().to_vec() })
                    })
                }
                fn rt_cpk(&self, b: &[u8], how: usize) -> Res<Vec<u8>> {
                    guard(|| match how {
                        0 => Ok(k::INDCPAPublicKey::from_bytes(b).to_bytes().as_slice().to_vec()),
                        1 => {
                            let n = k::INDCPAPublicKeyBytes::from_bytes(b).map_err(|e| e.to_string())?;
                            Ok(k::INDCPAPublicKey::from(&n).to_bytes().into_bytes().to_vec())
                        }
                        _ => {
                            let n = k::INDCPAPublicKeyBytes::from_bytes(b).map_err(|e| e.to_string())?;
                            let p: k::PublicKeyBytes = n.into();
                            Ok(p.into_bytes().to_vec())
                        }
                    })
                }
                fn rt_ss(&self, b: &[u8], how: usize) -> Res<Vec<u8>> {
                    guard(|| {
                        let n = k::SharedSecret::from_bytes(b).map_err(|e| e.to_string())?;
                        Ok(if how == 0 { n.as_slice().to_vec() } else { n.into_bytes().to_vec() })
                    })
                }
                fn direct(&self) -> Res<(Vec<u8>, Vec<u8>)> {
                    guard(|| {
                        let sk = k::keygen();
                        let (s, c) = k::encapsulate(sk.public_key());
                        let t = k::decapsulate(&c, &sk);
                        Ok((s.as_slice().to_vec(), t.as_slice().to_vec()))
                    })
                }
            }
        }
    };
}
kem!(Light, lightsaber, l_impl);
kem!(Main, saber, s_impl);
kem!(Fire, firesaber, f_impl);

pub const SETS: [&str; 3] = ["light", "saber", "fire"];
pub fn kem(set: &str) -> &'static dyn Kem {
    match set {
        "light" => &Light,
        "saber" => &Main,
        "fire" => &Fire,
        x => {
            eprintln!("HARNESS unknown set {x}");
            std::process::exit(3)
        }
    }
}

/// (dimension, bound of a secret coefficient, bits of a reconciliation coefficient)
pub fn params(set: &str) -> (usize, i32, usize) {
    match set {
        "light" => (2, 5, 3),
        "saber" => (3, 4, 4),
        _ => (4, 3, 6),
    }
}
