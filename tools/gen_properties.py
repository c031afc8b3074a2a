#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list lives here so that it can be reviewed and edited as text."""
import json, os
L = "latke/src/"
LK, EUE, AE, IC, LIB = L+"latke.rs", L+"eue_transform.rs", L+"auth_enc.rs", L+"ideal_cipher.rs", L+"lib.rs"
KC, CAKE, CP, CHIP = L+"pake/kc_spake2.rs", L+"pake/cake.rs", L+"pake/cpace.rs", L+"chip.rs"
FG, HM, SD, SG = [L+"ibke/%s.rs" % x for x in ("fg_ibke", "id_hmqv_c", "id_sig_dh", "id_sigma_r")]
IBKES, PAKES = [FG, HM, SD, SG], [KC, CAKE, CP]
SAB = ["saber-rust/src/generic.rs", "saber-rust/src/poly.rs", "saber-rust/src/lightsaber.rs",
       "saber-rust/src/saber.rs", "saber-rust/src/firesaber.rs", "saber-rust/src/non_generic.rs"]
DIL = ["pqcrypto/pqcrypto-dilithium/src/dilithium2.rs", "pqcrypto/pqcrypto-dilithium/src/dilithium3.rs",
       "pqcrypto/pqcrypto-dilithium/src/dilithium5.rs", "pqcrypto/pqcrypto-dilithium/src/ffi.rs",
       "pqcrypto/pqclean/crypto_sign/dilithium2/clean/sign.c", "pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c"]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "LATKE: honest peers with the same password always agree",
 "For every instantiation of LATKE with one of the library's IBKEs and PAKEs, two sessions in opposite roles whose password files were made from the same password, which use the same subsession id and compatible peer models (both post-specified, or each pre-specifying the other's id), and whose messages are relayed unmodified, both complete, report each other's exact identity and return the same session key. This holds for every password, identity and subsession id byte string (empty, long, all-zero, equal identities, ...), for reused or cloned password files, and for any interleaving with other sessions.",
 ["inputs", "schedules", "configurations"],
 "all passwords, ids, ssids, IBKE x PAKE instantiations, peer models, and interleavings of concurrent sessions",
 "The test runs one random (id1,id2,ssid) with the password 'password' once per instantiation, one session pair at a time; it reaches neither unusual inputs, other instantiations (CPace is never run inside LATKE), reuse of a password file, nor interleavings.",
 [LK, EUE] + IBKES + PAKES,
 [("PAKE over the password-derived main public key, then the IBKE inside an encrypted channel", LK), ("message/chain key ratchet in lock-step", EUE)],
 ["Latke::run", "Latke::is_done", "Latke::finalize"])
prop("C02", "LATKE: different passwords never yield a session key",
 "If the password files of two sessions were made from different passwords, then whatever messages are exchanged between them neither session ever returns a session key, however similar the passwords are (prefixes, padding, case, one bit, empty versus non-empty). The main public key a password file is built on is a function of the password alone: files made from the same password at different times, with different randomness and for different identities always interoperate.",
 ["inputs", "histories"],
 "all pairs of distinct passwords and all exchanges between the two sessions, for every instantiation and peer model",
 "No existing test runs two parties with different passwords at any level.",
 [LK, KC, CAKE, CP] + IBKES,
 [("main keypair derived from the hash of the password", LK), ("PAKE input includes the main public key", LK)],
 ["Latke::gen_pwfile", "Latke::run", "Latke::finalize"])
prop("C03", "LATKE: sessions are bound to ssid, roles, peer model and named peer",
 "Two sessions that share the password but differ in subsession id, or use different peer models, or of which one pre-specifies an identity other than its peer's, or which take the same role, never return a session key to each other. A session that pre-specifies a peer only ever returns a key together with exactly that peer identity.",
 ["inputs", "configurations", "histories"],
 "all mismatched pairs of (ssid, role, peer model, named identity), including near-equal ids and ssids, and all exchanges",
 "Tests only ever run matching parameters, so they cannot tell whether any parameter is bound at all.",
 [LK, EUE] + PAKES + IBKES,
 [("ids concatenated in role order into the PAKE input when the peer is pre-specified", LK), ("ssid fed to the PAKE, the channel keys and the IBKE", LK+", "+EUE)],
 ["Latke::new_session", "Latke::finalize"])
prop("C04", "LATKE: equal keys imply an unmodified matching conversation",
 "Whatever the network does (modify any byte, truncate, extend, drop, reorder, replay, reflect, or mix messages of concurrent sessions), a session that has received anything other than exactly the messages its peer session sent to it, in order, never returns a session key. Hence any two sessions returning the same key have opposite roles, the same subsession id and identical transcripts, and name each other's identities, and no three sessions ever share a key; the key depends on every message of the conversation.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all network behaviours over any number of concurrent sessions; every byte position of every message",
 "No LATKE test tampers with, replays, reflects or cross-delivers any message.",
 [LK, EUE, AE] + PAKES + IBKES,
 [("running transcript hash mixed into the final key", LK), ("authenticated encryption of the IBKE messages", AE), ("key confirmation in the IBKE and PAKE", ", ".join([KC]+IBKES))],
 ["Latke::run", "Latke::finalize"])
prop("C05", "LATKE: nobody can be impersonated with another user's password file",
 "A session returns a key together with an identity only if its peer holds a credential issued for exactly that identity under the shared password. A party that knows the channel key and holds a valid password file for one identity, but lies about its identity, presents somebody else's certificate, presents a certificate issued under a different main key, or otherwise alters any part of the inner key-exchange messages, cannot make an honest peer share a key with it under any identity other than its own.",
 ["histories", "inputs", "fault_sequences"],
 "all substitutions of identity, certificate, user key, issuing key and inner message fields by an insider, for every instantiation",
 "The tests contain no dishonest participant; every credential is genuine and every inner message unmodified.",
 [LK] + IBKES,
 [("certificate verified under the password-derived main key", ", ".join([HM, SD, SG])), ("identity hashed into the implicit certificate", FG), ("signatures / MACs over the exchange", ", ".join(IBKES))],
 ["Latke::finalize"])
prop("C06", "LATKE: a failed decryption is unconditionally executed, never visible",
 "Once the PAKE has completed, a LATKE session that receives a non-empty message which does not decrypt under its channel key (because the peer's key differs, or the message was modified, truncated or replaced) does not abort: it goes on to send exactly as many messages, of exactly the same lengths, as an honest run would, reports completion at the same step, and never returns a session key from then on, even if later messages are genuine. The first message accepted after such a failure cannot bring the session back.",
 ["histories", "inputs", "fault_sequences"],
 "every instantiation, every point of the exchange at which the first undecryptable message arrives, every way it is malformed, and every continuation",
 "The only test of the transform runs one honest exchange; the simulated mode is never entered by any test.",
 [EUE, LK, AE] + IBKES,
 [("real/simulated mode switch on decryption failure", EUE), ("simulated step of every IBKE", ", ".join(IBKES))],
 ["Latke::run", "Latke::is_done", "Latke::finalize"],
 state=[{"name": "real/simulated mode", "meaning": "whether every incoming message so far decrypted", "where": EUE}])
prop("C07", "LATKE: the channel hides content; every message has its own key",
 "On the wire, the inner key-exchange messages of a LATKE session appear only encrypted: no identity, certificate, or other inner plaintext is visible, every message is masked by a keystream that is never used for any other message (of either direction, position or session, even under an equal PAKE key), and message lengths do not depend on the password, the identities or the contents. A ciphertext is accepted only at the one position, direction and subsession for which it was produced.",
 ["inputs", "histories", "configurations"],
 "all inner message contents and lengths, all pairs of messages in all sessions, all positions at which a ciphertext may be delivered",
 "The one encryption test checks that a random message round-trips; nothing looks at what is on the wire, at key reuse or at cross-position acceptance.",
 [EUE, AE, LK],
 [("per-message keys from a ratchet seeded with PAKE key and ssid", EUE), ("random nonce per encryption", AE)],
 ["Latke::run (with instrumented PAKE and IBKE type parameters)"])
prop("C08", "IBKE: users certified by the same centre always agree",
 "For each of the five identity-based key exchanges, two parties in opposite roles with certificates from the same key-generation centre and the same subsession id, whose messages are relayed unmodified, both complete in the protocol's fixed number of messages, output each other's certified identity, and obtain the same session key. This holds for all identities (including equal, all-zero and near-equal ones), subsession ids and keys, for a user running many sessions with one certificate in either role, and for any interleaving of sessions.",
 ["inputs", "schedules"],
 "all identities, ssids, centre and user keys, and interleavings, for all five IBKEs",
 "Each test runs a single random exchange.",
 IBKES + [LIB], [("protocol steps driven by a step counter, even steps initiator, odd steps responder", ", ".join(IBKES))],
 ["IdentityBasedKeyExchange::run/is_done/finalize"])
prop("C09", "IBKE: only the certified owner of an identity can complete as it",
 "In each identity-based key exchange, a party never completes with a key that the other side also obtains if the other side's certificate was issued by a different centre, was issued for another identity or another user key than the one presented and used, or has had any part altered; in the signature-certificate protocols a party that receives a certificate which its own centre did not issue for exactly the identity and user key inside it does not complete at all. The identity a completed party outputs is the one inside the certificate that was issued, never one merely claimed.",
 ["inputs", "configurations", "fault_sequences"],
 "all mismatches between presented certificate, held user key, claimed identity and issuing centre, in both roles",
 "All tests use genuine certificates of one centre.",
 IBKES, [("certificate verification under the centre's public key", ", ".join([HM, SD, SG])), ("identity-based public key reconstruction", FG)],
 ["IdentityBasedKeyExchange::run/finalize"])
prop("C10", "IBKE: tampering, replay, reflection and mixing never yield a shared key",
 "If any message between two IBKE sessions is altered in any byte, truncated, extended, replayed, reflected, or replaced by or spliced with parts of messages of other sessions, or if the two sessions differ in subsession id, then the two never both complete with equal keys, and a session whose last incoming message was altered in any byte does not complete. Two sessions holding equal keys always have opposite roles, equal subsession ids and unmodified contents, and no third session shares that key.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all network behaviours; every byte position of every message of all five protocols; ssid mismatches",
 "No IBKE test tampers with any message or runs a second session.",
 IBKES + [AE], [("signatures and MACs with role separation, transcript/ssid in key derivation", ", ".join(IBKES))],
 ["IdentityBasedKeyExchange::run/is_done/finalize"])
prop("C11", "IBKE: a simulated step is indistinguishable in shape from a real one",
 "In every identity-based key exchange, for both roles and at every step, including when the switch from real to simulated execution happens mid-protocol, simulating a step announces exactly the length of the message the real step would have sent (or none exactly when the real step sends none), advances the protocol by one step, and reports completion exactly when the real protocol would. A party that has simulated any step never provides a session key through LATKE.",
 ["histories", "configurations", "inputs"],
 "all five IBKEs, both roles, all switch points from real to simulated execution",
 "No test calls the simulated step; two implementations of it were wrong and one was missing.",
 IBKES + [EUE], [("simulated step and its table of sizes", ", ".join(IBKES))],
 ["IdentityBasedKeyExchange::run_sim/is_done", "Latke::run"])
prop("C12", "PAKE: equal keys if and only if same password, ssid and unmodified run",
 "For each PAKE, two sessions in opposite roles with the same password bytes and the same subsession id whose messages are relayed unmodified both complete and return the same key. If the passwords or subsession ids differ in any way, or any message is altered, truncated, replayed, reflected or taken from another session, the two sessions never return equal keys; keys of different session pairs are never equal.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "all passwords (any length and bytes), ssids, and network behaviours over any number of sessions; every byte of every message",
 "Each test runs one honest exchange with one fixed password; no mismatch or tampering is ever tried.",
 PAKES + [IC], [("password and ssid bound into the group elements / cipher keys / key derivation", ", ".join(PAKES))],
 ["Pake::run/is_done/finalize"])
prop("C13", "KC-SPAKE2 confirms the key and allows one guess per session",
 "A key-confirming PAKE session completes only if its peer session used the same password and subsession id, received exactly what it sent and derived the same key; a wrong password, wrong subsession id or any altered, truncated, extended, empty or replayed confirmation is rejected. Each session processes one peer contribution at most: once a wrong one has been processed, nothing the session is fed afterwards makes it complete or provide a key, so that each session tests at most one password guess.",
 ["histories", "inputs", "fault_sequences"],
 "all passwords, all messages and all continuations after a rejection, in both roles",
 "The test only runs the success path; no rejection is ever provoked.",
 [KC], [("two MACs over the transcript, compared in constant time", KC), ("the SPAKE2 state is consumed by its first use", KC)],
 ["Pake::run/is_done/finalize"])
prop("C14", "No session yields a key before it completes or after it fails",
 "For every protocol in the library (PAKEs, IBKEs, LATKE, CHIP), asking a session for its result before the protocol has successfully completed (in particular right after a rejected step) never returns a session key. Completion is monotone and the result of a completed session never changes, however often it is asked for; a completed session refuses to run further steps, a PAKE, IBKE or LATKE initiator refuses to begin with a non-empty message, and steps only ever happen in protocol order.",
 ["histories"],
 "all sequences of run / is_done / finalize calls with any messages, on every protocol and role",
 "Tests call each method in the one intended order.",
 [LIB, LK, EUE, CHIP] + PAKES + IBKES, [("done flags and step counters", ", ".join([LIB])), ("finalize guards", ", ".join(PAKES+IBKES+[EUE]))],
 ["run / is_done / finalize of every protocol"])
prop("C15", "Every session is fresh and independent of all others",
 "Every protocol message containing an ephemeral value and every session key is new: no two sessions, even with identical passwords, identities, subsession ids and peers, ever send the same ephemeral message or obtain the same key unless they are the two ends of one conversation. What one session does, including being tampered with, failing, being abandoned, or running on another thread, never changes the outcome of another.",
 ["schedules", "histories"],
 "all interleavings (sequential, concurrent on threads) of many sessions with identical parameters",
 "Each test creates one pair of sessions and drops it.",
 [LK, EUE, CHIP] + PAKES + IBKES, [("fresh ephemeral values from the RNG per session", ", ".join(PAKES+IBKES)), ("all state in the session value", ", ".join(PAKES+IBKES+[LK]))],
 ["run / finalize of every protocol"])
prop("C16", "CHIP: agreement exactly when password, ids, ssid and messages match",
 "Two CHIP sessions in opposite roles whose password files were made from the same password, each naming exactly the identity in the other's password file, with the same subsession id and unmodified messages, obtain the same key. If the passwords, subsession ids or roles do not match, either named identity is wrong, or any message is altered, replayed, reflected or taken from another session, no two of them ever hold equal keys.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "all passwords, identities, ssids, PAKEs and network behaviours; every byte of every message",
 "The test runs one honest exchange over one PAKE.",
 [CHIP, KC, CP], [("PAKE keyed by the Diffie-Hellman values and transcript of the identity-based exchange", CHIP)],
 ["Chip::run/finalize"])
prop("C17", "Authenticated encryption round-trips everything and rejects any change",
 "The authenticated encryption protecting key-exchange messages recovers exactly the plaintext for every plaintext length and content, adds a fixed overhead, and rejects a ciphertext in which any single bit, in any part, has been changed, or that was truncated, extended, reassembled from other ciphertexts, or encrypted under another key; malformed or too short input is rejected like any other, without crashing the session. Encrypting the same plaintext twice under one key gives unrelated ciphertexts.",
 ["inputs"],
 "all plaintext lengths and contents, every bit position, every truncation and extension",
 "One test round-trips one random message and one flips one bit of one random byte (always the lowest bit) and expects a panic.",
 [AE, EUE, SG], [("encrypt-then-MAC with a random nonce", AE)],
 ["Latke::run (with instrumented PAKE and IBKE type parameters)"])
prop("C18", "CAKE's cipher is a keyed permutation with full diffusion",
 "The wide-block cipher behind CAKE is, for every key and every block length it is used with, a permutation whose decryption exactly inverts encryption; changing any single bit of the input (in either direction) or of the key changes every part of the output. Consequently altering any bit of a CAKE message, or using another password, subsession id or message position, gives the receiver an unrelated value and never the sender's key.",
 ["inputs"],
 "all keys, all blocks of the lengths used, every input bit, both directions",
 "One round-trip of one random block; nothing checks diffusion, key dependence or domain separation.",
 [IC, CAKE], [("four-round Farfalle-WBC Feistel", IC), ("cipher key derived from position, ssid and password", CAKE)],
 ["Cake::run", "wide_block_encrypt / wide_block_decrypt through the guarded hook"], hook="latke_verif: re-exports the wide-block cipher (falls back to Cake::run only)")
prop("C19", "Saber: decapsulation always recovers the encapsulated secret",
 "For all three Saber parameter sets, both the CCA and the CPA-only key encapsulation: decapsulating a ciphertext with the secret key whose public key it was made for always returns the encapsulated secret, also after any of the keys and the ciphertext went through their byte encodings. Different encapsulations and different key pairs give unrelated secrets, ciphertexts and keys.",
 ["inputs"],
 "all key pairs and all encapsulation randomness (failure rate must be negligible, not merely small)",
 "The tests run a handful of encapsulations; a defect failing once in 3.5e5 runs survived them.",
 SAB, [("rounding, reconciliation and bit packing", "saber-rust/src/generic.rs, saber-rust/src/poly.rs")],
 ["saber::{lightsaber,saber,firesaber}::*"])
prop("C20", "Saber CCA: tampered ciphertexts are implicitly rejected; encodings are exact",
 "Decapsulating a ciphertext altered in any bit returns, without error, a secret that differs from the encapsulated one, is the same on every repetition, depends on the secret key's private rejection seed and on nothing the sender chose to agree on, and differs for another key pair. Serialising and parsing public keys, secret keys and ciphertexts is lossless, and every wrong length is rejected with an error.",
 ["inputs"],
 "every bit of every ciphertext of the three parameter sets, all wrong lengths, repeated and cross-key decapsulation",
 "No test decapsulates a modified ciphertext or parses a wrong length.",
 SAB, [("re-encryption check selecting between the real secret and the rejection seed", "saber-rust/src/generic.rs")],
 ["saber::{lightsaber,saber,firesaber}::{decapsulate, PublicKey, SecretKey, Ciphertext}"])
prop("C21", "Saber computes exactly the published algorithm",
 "For every key pair, encapsulation and decapsulation of the three parameter sets, the public key, ciphertext and shared secret are the ones the published Saber specification prescribes for the same seeds: public key the rounded product of the seed-expanded matrix and the secret vector, secret coefficients within the specified small range, ciphertext the rounded transpose product and reconciliation hint, shared secret the specified hash. Any party implementing the specification can therefore interoperate with it.",
 ["inputs"],
 "all seeds, messages and parameter sets; every coefficient of every polynomial",
 "The library's own tests only compare it with itself on a few random inputs (its reference test is off by default).",
 SAB, [("deterministic core of key generation, encryption, decryption", "saber-rust/src/generic.rs"), ("packing and polynomial arithmetic", "saber-rust/src/poly.rs")],
 ["saber::{lightsaber,saber,firesaber}::{keygen, encapsulate, decapsulate, to_bytes}"])
prop("C22", "Dilithium: exactly the signer's message and signature verify",
 "For all three Dilithium levels, a signature made by a key pair (attached or detached) verifies under its public key for exactly the signed message, and opening a signed message returns exactly that message, for every message length including empty. Verification rejects any other message, any other public key, a signature altered in any bit, re-encoded, truncated, extended or of wrong length, without crashing.",
 ["inputs"],
 "all messages and lengths, every bit of signature, message and public key, alternative encodings of a signature",
 "The wrapper's tests sign and verify one random message; the vector tests cover honest signatures only, and few check rejections.",
 DIL, [("verification with range, hint and length checks", "pqcrypto/pqclean/crypto_sign/dilithium*/{clean,avx2}/{sign,packing}.c"), ("length-checked wrappers", DIL[0])],
 ["pqcrypto_dilithium::dilithium{2,3,5}::*"])
prop("C23", "Dilithium: key generation from coins is a function; backends interoperate",
 "Deterministic key generation returns the same key pair for the same coins every time and different key pairs for coins that differ in any bit, and its keys are valid: they sign, verify and interoperate with ordinary generated keys and across both implementations of the algorithm. Ordinary key generation never repeats, byte encodings of keys and signatures round-trip exactly and have the announced lengths, two keys compare equal exactly if their encodings are, and wrong lengths are rejected with an error.",
 ["inputs", "configurations"],
 "all coin strings (every bit), both implementations, all three levels, all wrong lengths",
 "Deterministic key generation was added to the vendored code and has no test of its own in the wrapper; no test crosses the two implementations.",
 DIL, [("coins threaded into the key generation seed expansion", DIL[0] + ", " + DIL[4])],
 ["pqcrypto_dilithium::dilithium2::keypair_det", "pqcrypto_dilithium::ffi"])
prop("C24", "Dilithium computes exactly the published algorithm, in both implementations",
 "For all three Dilithium levels and both implementations (portable C and AVX2, whichever the Rust API picks), key generation, signing and verification compute exactly what the published algorithm prescribes: the key pair is the one determined by the coins, the signature of a message under a secret key is the deterministic one, and verification accepts a byte string if and only if the algorithm does. In particular every signature with a response outside its range, a hint that is not in its unique encoding, or a challenge that differs in any byte is rejected, even one that a malicious signer made to satisfy all the other conditions, and every signature that satisfies all of them is accepted, so that no two verifiers ever disagree.",
 ["inputs", "configurations"],
 "all coins, messages, secret keys and byte strings offered as signatures, including those made by dishonest signers; both implementations, all three levels",
 "The tests compare honest signatures with stored vectors and with each other; no test offers a signature that violates a single condition of the verification, or a value at the border of a rounding.",
 DIL, [("verification with range, hint and length checks; rejection sampling in signing", "pqcrypto/pqclean/crypto_sign/dilithium*/{clean,avx2}/{sign,packing}.c"), ("rounding and hints", "pqcrypto/pqclean/crypto_sign/dilithium*/{clean,avx2}/rounding.c")],
 ["pqcrypto_dilithium::dilithium{2,3,5}::*", "pqcrypto_dilithium::ffi"])
INT = ["pqcrypto/pqcrypto-internals/cfiles/" + x for x in ("fips202.c", "sp800-185.c", "sha2.c", "aes.c", "nistseedexpander.c")]
prop("C25", "The common hash functions and AES compute the published standards",
 "Every function of the common C library that the signature scheme is built on computes what its standard prescribes: SHAKE, SHA-3, cSHAKE, SHA-2, AES in block and in counter mode, and the AES-based seed expander, for every key, nonce, input, input length and output length. For the incremental interfaces the result depends only on the concatenation of the pieces absorbed and on the number of bytes already squeezed, not on how either was divided into calls; a cloned context continues independently of the original with the same result; whole-block interfaces agree with the byte-wise ones. The seed expander refuses a request that would exhaust its limit, without any effect on later requests, and no function writes outside its output.",
 ["inputs", "histories"],
 "all keys, nonces, inputs and lengths; all histories of init, absorb, finalize, squeeze, clone on concurrent contexts; all sequences of requests",
 "The library has no test of its own for these functions; the signature tests exercise only SHAKE with a few fixed patterns of lengths, and neither SHA-2, SHA-3, cSHAKE, AES nor the seed expander.",
 INT, [("sponge with a byte counter", INT[0]), ("padding in one or two last blocks, length counter", INT[2]), ("four blocks at a time, counter increment", INT[3]), ("buffered key stream and limit", INT[4])],
 ["extern C functions of pqcrypto-internals (shake*, sha3_*, cshake*, sha2*, aes*, seedexpander)"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
