-------------------------------- MODULE Prim --------------------------------
(* The primitives underneath the protocols, as object machines: a heap of    *)
(* typed objects, each standing for byte strings described by terms of an    *)
(* ideal primitive. Equal terms are equal bytes, different terms different   *)
(* bytes (see Coincide for the exceptions). An operation either is rejected  *)
(* or adds objects to the heap.                                              *)
(*   kem: Saber (sets light, saber, fire), CCA and CPA                       *)
(*   sig: Dilithium (sets 2, 3, 5), each operation on a backend              *)
(*   wbc: the wide-block cipher behind CAKE                                  *)
(* An operation is a record [o, x, y, z, f, n]: name, heap indices (0: none),*)
(* a field or kind, a number.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Op(o, x, y, z, f, n) == [o |-> o, x |-> x, y |-> y, z |-> z, f |-> f, n |-> n]

(* an object: type, terms of its byte strings, length in bytes (-1: not specified) *)
Obj(ty, ts, len) == [ty |-> ty, ts |-> ts, len |-> len]
Out(objs) == [r |-> "ok", objs |-> objs]
Rejected == [r |-> "rej", objs |-> <<>>]

Toggle(S, e) == IF e \in S THEN S \ {e} ELSE S \cup {e}

(* ------------------------------------------------------------------------ *)
(* kem                                                                       *)
KDim(set)   == CASE set = "light" -> 2 [] set = "saber" -> 3 [] set = "fire" -> 4
KRec(set)   == CASE set = "light" -> 3 [] set = "saber" -> 4 [] set = "fire" -> 6
KPk(set) == 320 * KDim(set) + 32
KSk(set) == 416 * KDim(set) + KPk(set) + 64
KCt(set) == 320 * KDim(set) + 32 * KRec(set)
KLen(ty, set) == CASE ty \in {"pk", "cpk"} -> KPk(set) [] ty = "sk" -> KSk(set) [] ty \in {"ct", "cct"} -> KCt(set)
                   [] ty \in {"ss", "cs"} -> 32 [] OTHER -> 0

(* terms: <<"sk", key, alterations>>, <<"pk", key, alterations>>, <<"ct", public key, number, alterations>>,
   <<"cct", ...>> the same of a CPA encapsulation, <<"ss", public key, number>>, <<"cs", public key, number>>,
   <<"rej", key, rejection seed alterations, ciphertext>>, <<"any", ciphertext, key>> *)
KemAlter(ob, f, n, c) ==
  LET t == ob.ts[1] IN
  CASE t[1] = "sk" -> <<"sk", t[2], Toggle(t[3], <<f, n>>)>>
    [] t[1] = "pk" -> <<"pk", t[2], Toggle(t[3], <<f, n>>)>>
    [] t[1] = "ct" -> <<"ct", t[2], t[3], Toggle(t[4], <<f, n>>)>>
    [] t[1] = "cct" -> <<"cct", t[2], t[3], Toggle(t[4], <<f, n>>)>>

OfField(S, f) == {e \in S : e[1] = f}
CtGood(ct, sk) == /\ ct[1] = "ct" /\ ct[4] = {}
                  /\ ct[2] = <<"pk", sk[2], {}>>
                  /\ OfField(sk[3], "h") = {}

KemStep(H, op, set) ==
  LET c == Len(H) + 1
      T(i) == H[i].ts[1]
      New(ty, t) == Obj(ty, <<t>>, KLen(ty, set)) IN
  CASE op.o = "kg"  -> Out(<<New("sk", <<"sk", c, {}>>)>>)
    [] op.o = "pub" -> Out(<<New("pk", <<"pk", T(op.x)[2], {}>>)>>)
    [] op.o = "en"  -> Out(<<New("ss", <<"ss", T(op.x), c>>), New("ct", <<"ct", T(op.x), c, {}>>)>>)
    [] op.o = "de"  -> LET ct == T(op.x)  sk == T(op.y) IN
                       Out(<<New("ss", IF CtGood(ct, sk) THEN <<"ss", ct[2], ct[3]>>
                                       ELSE <<"rej", sk[2], OfField(sk[3], "z"), <<ct, OfField(sk[3], "h")>> >>)>>)
    \* key generation, encapsulation, decapsulation without any encoding in between: both secrets
    [] op.o = "dir" -> Out(<<New("ss", <<"ss", <<"pk", c, {}>>, c>>), New("ss", <<"ss", <<"pk", c, {}>>, c>>)>>)
    \* CPA: the secret key has no encoding
    [] op.o = "ckg" -> Out(<<New("pk", <<"pk", c, {}>>), Obj("csk", <<>>, 0) @@ [key |-> c]>>)
    [] op.o = "cen" -> Out(<<New("cs", <<"cs", T(op.x), c>>), New("ct", <<"cct", T(op.x), c, {}>>)>>)
    [] op.o = "cde" -> LET ct == T(op.x) IN
                       Out(<<New("cs", IF ct[1] = "cct" /\ ct[4] = {} /\ ct[2] = <<"pk", H[op.y].key, {}>>
                                       THEN <<"cs", ct[2], ct[3]>> ELSE <<"any", ct, H[op.y].key>>)>>)
    \* decode and encode again
    [] op.o = "rt"  -> Out(<<H[op.x]>>)
    \* a byte string of the wrong length: decoding rejects it
    [] op.o = "bl"  -> IF op.n = 0 THEN Out(<<>>) ELSE Rejected
    [] op.o = "fl"  -> Out(<<Obj(H[op.x].ty, <<KemAlter(H[op.x], op.f, op.n, c)>>, H[op.x].len)>>)
    \* a ciphertext nobody made: n = 0 zeros, 1 ones, 2 random
    [] op.o = "cc"  -> LET u == IF op.n < 2 THEN op.n ELSE c IN Out(<<New("ct", <<"ct", <<"none", u, {}>>, u, {}>>)>>)

(* ------------------------------------------------------------------------ *)
(* sig                                                                       *)
SPk(set)  == CASE set = "2" -> 1312 [] set = "3" -> 1952 [] set = "5" -> 2592
SSk(set)  == CASE set = "2" -> 2560 [] set = "3" -> 4032 [] set = "5" -> 4896
SSig(set) == CASE set = "2" -> 2420 [] set = "3" -> 3309 [] set = "5" -> 4627
SLen(ty, set) == CASE ty = "pk" -> SPk(set) [] ty = "sk" -> SSk(set) [] ty \in {"sig", "sm"} -> SSig(set) [] OTHER -> 0 - 1

(* terms: <<"pk", key, alterations>>, <<"sk", key, alterations>>, <<"msg", message>>, <<"sig", key, message, n, alterations>>,
   <<"sm", signature, message>>. A key is <<"r", n>> (random) or <<"d", coins>>; a message is a sequence: a number
   and what was done to it. Signing the same message twice may or may not give the same signature. *)
SigStep(H, op, set) ==
  LET c == Len(H) + 1
      T(i) == H[i].ts[1]
      New(ty, t) == Obj(ty, <<t>>, SLen(ty, set))
      Alt(S) == S \cup {<<op.f, op.n, c>>}
      Good(sig, m, pk) == sig[5] = {} /\ pk[3] = {} /\ sig[2] = pk[2] /\ sig[3] = m
  IN
  CASE op.o = "kp"  -> Out(<<New("pk", <<"pk", <<"r", c>>, {}>>), New("sk", <<"sk", <<"r", c>>, {}>>)>>)
    [] op.o = "kd"  -> Out(<<New("pk", <<"pk", <<"d", op.n>>, {}>>), New("sk", <<"sk", <<"d", op.n>>, {}>>)>>)
    [] op.o = "msg" -> Out(<<New("msg", <<"msg", <<op.n>> >>)>>)
    \* another message: a flipped bit, one byte more, one byte less
    [] op.o = "ma"  -> Out(<<New("msg", <<"msg", T(op.x)[2] \o <<c>> >>)>>)
    [] op.o = "sg"  -> LET m == T(op.y)[2] IN
                       Out(<<New("sm", <<"sm", <<"sig", T(op.x)[2], m, c, {}>>, m>>)>>)
    [] op.o = "ds"  -> Out(<<New("sig", <<"sig", T(op.x)[2], T(op.y)[2], c, {}>>)>>)
    [] op.o = "op"  -> LET sm == T(op.x) IN
                       IF sm[2][1] = "sig" /\ Good(sm[2], sm[3], T(op.y)) THEN Out(<<New("msg", <<"msg", sm[3]>>)>>) ELSE Rejected
    [] op.o = "vf"  -> IF Good(T(op.x), T(op.y)[2], T(op.z)) THEN Out(<<>>) ELSE Rejected
    \* the signature in a signed message; a signature put in front of a message
    [] op.o = "sp"  -> Out(<<Obj("sig", <<T(op.x)[2]>>, 0 - 1)>>)
    [] op.o = "jn"  -> Out(<<New("sm", <<"sm", T(op.x), T(op.y)[2]>>)>>)
    [] op.o = "rt"  -> Out(<<H[op.x]>>)
    [] op.o = "bl"  -> IF op.n = 0 THEN Out(<<>>) ELSE Rejected
    \* comparison of two keys as the crate compares them; a length as the crate announces it
    [] op.o = "eq"  -> IF T(op.x) = T(op.y) THEN Out(<<>>) ELSE Rejected
    [] op.o = "sz"  -> Out(<<Obj("sz", <<>>, SLen(op.f, set))>>)
    \* alterations: of a key, of a signature (a bit of field f, the hint encoded differently, too short), of a signed message
    [] op.o = "fl"  -> LET t == T(op.x) IN
                       Out(<<Obj(H[op.x].ty,
                             <<CASE t[1] \in {"pk", "sk"} -> <<t[1], t[2], Alt(t[3])>>
                                 [] t[1] = "sig" -> <<"sig", t[2], t[3], t[4], Alt(t[5])>>
                                 [] t[1] = "sm" /\ op.f \in {"m", "mtr", "mex"} -> <<"sm", t[2], t[3] \o <<c>> >>
                                 [] t[1] = "sm"  -> <<"sm", <<"sig", t[2][2], t[2][3], t[2][4], Alt(t[2][5])>>, t[3]>> >>,
                             IF op.f \in {"tr", "mtr", "mex", "cut"} THEN 0 - 1 ELSE H[op.x].len)>>)

(* ------------------------------------------------------------------------ *)
(* wbc: an object is a block, described by one term: <<"p", n>> plaintext, <<"E", key, block>>, <<"D", key, block>>,
   <<"f", block, flipped bits>>, a bit being <<word, bit>> *)
WEnc(k, b) == IF b[1] = "D" /\ b[2] = k THEN b[3] ELSE <<"E", k, b>>
WDec(k, b) == IF b[1] = "E" /\ b[2] = k THEN b[3] ELSE <<"D", k, b>>
WFlip(b, e) == IF b[1] = "f" THEN LET S == Toggle(b[3], e) IN IF S = {} THEN b[2] ELSE <<"f", b[2], S>>
               ELSE <<"f", b, {e}>>
(* a block of n bytes has n \div 8 words; the last one takes what is left over *)
WbcStep(H, op, set) ==
  LET c == Len(H) + 1
      B(i) == H[i].ts[1]
      Blk(t, n) == Out(<<Obj("b", <<t>>, n)>>) IN
  CASE op.o = "pt" -> Blk(<<"p", c>>, op.n)
    [] op.o = "we" -> Blk(WEnc(op.n, B(op.x)), H[op.x].len)
    [] op.o = "wd" -> Blk(WDec(op.n, B(op.x)), H[op.x].len)
    \* flip bit op.n of word op.y
    [] op.o = "fl" -> Blk(WFlip(B(op.x), <<op.y, op.n>>), H[op.x].len)

Step(p, H, op, set) == CASE p = "kem" -> KemStep(H, op, set) [] p = "sig" -> SigStep(H, op, set) [] p = "wbc" -> WbcStep(H, op, set)

(* different terms that are allowed to be equal bytes *)
Coincide(a, b) ==
  \/ a[1] = "any" \/ b[1] = "any"
  \* rejections under one key and rejection seed: of ciphertexts that decrypt to the same message
  \/ a[1] = "rej" /\ b[1] = "rej" /\ a[2] = b[2] /\ a[3] = b[3]
  \* two signatures (signed messages) of the same message by the same key
  \/ a[1] = "sig" /\ b[1] = "sig" /\ a[2] = b[2] /\ a[3] = b[3] /\ a[5] = {} /\ b[5] = {}
  \* a signed empty message is a signature
  \/ {a[1], b[1]} = {"sig", "sm"} /\ LET x == IF a[1] = "sm" THEN a ELSE b  y == IF a[1] = "sm" THEN b ELSE a IN
       x[2][2] = y[2] /\ x[2][3] = y[3] /\ x[3] = y[3] /\ x[2][5] = {} /\ y[5] = {}
  \/ a[1] = "sm" /\ b[1] = "sm" /\ a[3] = b[3] /\ a[2][2] = b[2][2] /\ a[2][3] = b[2][3] /\ a[2][5] = {} /\ b[2][5] = {}
=============================================================================
