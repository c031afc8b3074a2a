------------------------------ MODULE DilTrace ------------------------------
(* Every recorded Dilithium operation, recomputed by Dilithium.tla. A state  *)
(* per operation and question, the question being an invariant, so that      *)
(* TLC's workers evaluate them in parallel.                                  *)
(*   key:  a key pair of backend be, from coins or not                       *)
(*   sign: the signatures of every backend for one key and message; good:    *)
(*         the specification's, if it made key and signature (DilGen)        *)
(*   ver:  the verdicts of every backend on signatures for one key           *)
EXTENDS Dilithium, Json, IOUtils

V == ndJsonDeserialize(IOEnv.TRACE)
NV == Len(V)
VARIABLES i, q
vars == <<i, q>>

Rep(n, cls, info) == PrintT(<<"MISMATCH", n, 1, cls, info>>)
Chk(n, cls, cond, info) == IF cond THEN TRUE ELSE Rep(n, cls, info)

(* a key pair made of its own parts *)
InRange(v, e) == \A x \in 1..Len(v) : \A j \in Idx : v[x][j] >= 0 - e /\ v[x][j] <= e
KeyOk(n, v, z) ==
  IF Len(v.pk) # PkLen(v.set) \/ Len(v.sk) # SkLen(v.set) THEN Rep(n, "len", "length of a key")
  ELSE IF v.coins # <<>>
  THEN Bind(KeySeed(v.coins), LAMBDA sd: Bind(ExpandA(SubSeq(sd, 1, 32), v.set), LAMBDA A: Bind(KeyPair(sd, A, z, v.set), LAMBDA kp:
         /\ Chk(n, "pk", v.pk = kp[1], <<"public key from coins", v.set>>)
         /\ Chk(n, "sk", v.sk = kp[2], <<"secret key from coins", v.set>>))))
  ELSE Bind(SkS1(v.sk, v.set), LAMBDA s1: Bind(SkS2(v.sk, v.set), LAMBDA s2:
         IF ~ InRange(s1, Eta(v.set)) \/ ~ InRange(s2, Eta(v.set)) THEN Rep(n, "small", "a secret coefficient is out of range")
         ELSE Bind(ExpandA(SubSeq(v.sk, 1, 32), v.set), LAMBDA A: Bind(AddVec(InvVec(MatVec(A, NttVec(Modq(s1), z)), z), Modq(s2)), LAMBDA t:
         /\ Chk(n, "pk", v.pk = SubSeq(v.sk, 1, 32) \o VecBytes(TLCEval([x \in 1..K(v.set) |-> [j \in Idx |-> R1(t[x][j])]]), 10), "public vector")
         /\ Chk(n, "sk", SkT0(v.sk, v.set) = TLCEval([x \in 1..K(v.set) |-> [j \in Idx |-> R0(t[x][j])]]), "low bits in the secret key")
         /\ Chk(n, "sk", SubSeq(v.sk, 65, 128) = SHAKE256(v.pk, 64), "hash of the public key")))))

SignOk(n, v, z) ==
  Bind(IF v.good # <<>> THEN v.good
       ELSE Bind(ExpandA(SubSeq(v.sk, 1, 32), v.set), LAMBDA A: Sign(v.sk, v.m, A, z, v.set)[2]), LAMBDA s:
    \A x \in DOMAIN v.sigs : Chk(n, "sig", v.sigs[x] = s, <<"signature of backend", x - 1, v.set>>))

VerOk(n, v, z) ==
  Bind(ExpandA(SubSeq(v.pk, 1, 32), v.set), LAMBDA A:
    \A x \in DOMAIN v.cases :
      LET c == v.cases[x] IN
      Bind(Verify(v.pk, c.m, c.sig, A, z, v.set), LAMBDA ok:
        /\ \A b \in DOMAIN c.ok : /\ Chk(n, "acc", c.ok[b] = "no" \/ ok, <<"accepted by backend", b - 1, c.why, v.set>>)
                                  /\ Chk(n, "rej", c.ok[b] = "yes" \/ ~ ok, <<"rejected by backend", b - 1, c.why, v.set>>)
        /\ PrintT(<<"VER", ok, c.kind>>)))

Verdict ==
  q = 1 =>
    LET v == V[i] IN
    IF v.r # "ok" THEN Rep(i, "fail", <<v.op, v.r>>)
    ELSE Bind(Zetas, LAMBDA z:
         CASE v.op = "key" -> KeyOk(i, v, z)
           [] v.op = "sign" -> SignOk(i, v, z)
           [] v.op = "ver" -> VerOk(i, v, z))

Init == i \in 1..NV /\ q = 0
Next == q = 0 /\ q' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Stats == PrintT(<<"STATES", TLCGet("distinct")>>)
=============================================================================
