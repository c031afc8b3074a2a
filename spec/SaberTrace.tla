----------------------------- MODULE SaberTrace -----------------------------
(* Every recorded Saber operation, checked byte by byte against Saber.tla.   *)
(* A state per operation and question; the questions are invariants, so that *)
(* TLC's workers evaluate them in parallel.                                  *)
EXTENDS Saber, Json, IOUtils

V == ndJsonDeserialize(IOEnv.TRACE)
NV == Len(V)
VARIABLES i, q
vars == <<i, q>>

Rep(n, cls, info) == PrintT(<<"MISMATCH", n, 1, cls, info>>)
Chk(n, cls, cond, info) == IF cond THEN TRUE ELSE Rep(n, cls, info)

Small(v, b) == \A x \in DOMAIN v : \A k \in Idx : v[x][k] >= -b /\ v[x][k] <= b
SumSq(v) == FoldLeft(LAMBDA a, x: a + FoldLeft(LAMBDA c, k: c + v[x][k] * v[x][k], 0, Js), 0, Upto(Len(v)))
LensOk(n, v) == /\ Chk(n, "len", Len(v.sk) = SkBytes(v.set), "secret key length")
                /\ Len(v.sk) = SkBytes(v.set)

(* Key generation: hash of the public key, small secret, b = round(A s). The sum *)
(* of squares of a secret is Mu/4 per coefficient; ten standard deviations allowed *)
KeyOk(n, v) ==
  LET s == SecretVec(v.sk, v.set)
      pk == SkPk(v.sk, v.set)
      cnt == Dim(v.set) * N
      ss == SumSq(s)
  IN IF ~ LensOk(n, v) THEN TRUE ELSE
     /\ Chk(n, "pk", v.ct = pk, "the public key differs from the one in the secret key")
     /\ Chk(n, "hpk", SkHash(v.sk, v.set) = SHA3_256(pk), "hash of the public key")
     /\ IF ~ Small(s, Mu(v.set) \div 2) THEN Rep(n, "small", "a secret coefficient is out of range")
        ELSE /\ Chk(n, "small", ss > (cnt * Mu(v.set)) \div 8 /\ ss < (cnt * Mu(v.set) * 3) \div 8, <<"the secret is not binomial", ss>>)
             /\ Chk(n, "b", SubSeq(pk, 1, VecPBytes(v.set)) = PublicVec(SubSeq(pk, VecPBytes(v.set) + 1, PkBytes(v.set)), s, v.set),
                    "the public vector is not the rounded product")

DecOk(n, v) ==
  LET d == Decaps(v.sk, v.ct, v.set)
      s == SecretVec(v.sk, v.set)
  IN IF ~ LensOk(n, v) THEN TRUE
     ELSE IF ~ Small(s, Mu(v.set) \div 2) THEN TRUE
     ELSE /\ Chk(n, "len", Len(v.ct) = CtBytes(v.set), "ciphertext length")
          /\ Chk(n, "ss", v.ss = d[1], <<"shared secret of a decapsulation", v.why, d[2]>>)
          /\ IF v.op # "en" THEN TRUE
             ELSE /\ Chk(n, "ct", d[2], "the ciphertext is not the one prescribed for its message")
                  /\ Chk(n, "enc", v.enc = d[1], "shared secret of an encapsulation")
          /\ PrintT(<<"DEC", d[2]>>)

CpaOk(n, v) == IF ~ LensOk(n, v) \/ ~ Small(SecretVec(v.sk, v.set), Mu(v.set) \div 2) THEN TRUE
               ELSE /\ Chk(n, "len", Len(v.ct) = CtBytes(v.set), "ciphertext length")
                    /\ Chk(n, "cpa", v.ss = Dec(SecretVec(v.sk, v.set), v.ct, v.set), "the CPA secret is not the encrypted message")

Verdict ==
  q = 1 =>
    LET v == V[i] IN
    IF v.r # "ok" THEN Rep(i, "fail", <<v.why, v.r>>)
    ELSE CASE v.op = "kg" -> KeyOk(i, v)
           [] v.op = "cp" -> CpaOk(i, v)
           [] OTHER -> DecOk(i, v)

Init == i \in 1..NV /\ q = 0
Next == q = 0 /\ q' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Stats == PrintT(<<"STATES", TLCGet("distinct")>>)
=============================================================================
