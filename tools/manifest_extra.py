T = "TLA+ object machine of the ideal primitive, TLC-generated operation sequences executed by the code, every recorded execution validated by TLC"
def m(note, technique=T):
    return dict(technique=technique, level="model_checking", level_note=note)
EXTRA = {
    "C18": m("Ideal keyed permutation with full word diffusion in TLA+ (Prim.tla), reached in the code through the cfg(latke_verif) hook, at 12 block lengths; CAKE itself through the protocol "
             "specification. Sampled keys and blocks; diffusion is checked per 64-bit word of the output."),
    "C19": m("Ideal KEM in TLA+ (Prim.tla); random keys and encapsulations, thousands per parameter set. A decapsulation failure of probability below about 1e-4 is out of reach of the sampling, "
             "but not of C21, which recomputes the algorithm."),
    "C20": m("Ideal KEM with implicit rejection in TLA+ (Prim.tla). Sampled alterations of every field; wrong lengths enumerated by kind."),
    "C21": m("The published Saber algorithm written out in TLA+ (Saber.tla over Keccak.tla, no code shared with the repository); TLC recomputes every recorded operation byte by byte. "
             "Sampled keys, honest, altered and crafted ciphertexts and secret keys.",
             "Executable TLA+ specification of the published algorithm; TLC recomputes every recorded operation of the code"),
    "C22": m("Ideal signature scheme in TLA+ (Prim.tla); the Rust API and both C implementations, any of which signs for any to verify. Sampled alterations of every field of keys, signatures, messages."),
    "C23": m("Ideal signature scheme with key generation as a function of the coins in TLA+ (Prim.tla); the Rust API and both C implementations."),
    "C24": m("The published Dilithium algorithm written out in TLA+ (Dilithium.tla over Keccak.tla, no code shared with the repository); TLC makes keys, signatures and forgeries that violate one "
             "condition each, and recomputes every recorded key, signature and verdict of the Rust API and both C implementations. Sampled coins, messages and keys; every condition of the verification at its border.",
             "Executable TLA+ specification of the published algorithm; TLC generates inputs for and recomputes every recorded operation of the code"),
    "C25": m("TLC explores every history of up to 6 calls on two contexts and checks a buffering machine against the plain function; the code runs all of them, and TLC computes the recorded outputs again from "
             "SHA-3, SHA-2 and AES written out in TLA+. Sampled contents; every length modulo the block size.",
             "TLA+ state machine of the incremental interfaces, TLC-generated histories executed by the code, outputs recomputed by TLC from the published algorithms"),
}
