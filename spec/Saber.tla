------------------------------- MODULE Saber -------------------------------
(* The published Saber algorithms (round 2/3 submission, Algorithms 7 to 28)  *)
(* as functions over byte sequences, written from the submission document.    *)
(* Polynomials are sequences of 256 integers in Z[X]/(X^256 + 1).             *)
EXTENDS Keccak, Functions

N == 256
Idx == 1..N
Js == TLCEval([j \in 1..256 |-> j])
EpsQ == 13
EpsP == 10
Q == 8192
P == 1024

(* light: Saber dimension 2, saber: 3, fire: 4 *)
Dim(set)   == CASE set = "light" -> 2  [] set = "saber" -> 3 [] set = "fire" -> 4
Mu(set)    == CASE set = "light" -> 10 [] set = "saber" -> 8 [] set = "fire" -> 6
Recon(set) == CASE set = "light" -> 2  [] set = "saber" -> 3 [] set = "fire" -> 5

PolyQBytes == (EpsQ * N) \div 8
PolyPBytes == (EpsP * N) \div 8
VecQBytes(set) == Dim(set) * PolyQBytes
VecPBytes(set) == Dim(set) * PolyPBytes
PkBytes(set) == VecPBytes(set) + 32
SkBytes(set) == VecQBytes(set) + PkBytes(set) + 64
CtBytes(set) == VecPBytes(set) + ((Recon(set) + 1) * N) \div 8

(* little endian bit strings: n integers of w <= 13 bits in bytes starting after offset o, and back *)
Unpack(bs, o, w, n) ==
  TLCEval([i \in 1..n |->
    LET k == (i - 1) * w
        j == o + (k \div 8) + 1
        b(x) == IF x <= Len(bs) THEN bs[x] ELSE 0
    IN ((b(j) + 256 * b(j + 1) + 65536 * b(j + 2)) \div Pow2[(k % 8) + 1]) % Pow2[w + 1]])

Pack(cs, w) ==
  TLCEval([k \in 1..((Len(cs) * w) \div 8) |->
    LET lo == (8 * (k - 1)) \div w
        hi == (8 * (k - 1) + 7) \div w
        part(i) == LET s == w * i - 8 * (k - 1) IN
                   IF s >= 0 THEN (cs[i + 1] * Pow2[s + 1]) % 256 ELSE (cs[i + 1] \div Pow2[1 - s]) % 256
    IN FoldLeft(LAMBDA acc, x: acc + part(lo + x), part(lo), Upto(hi - lo)) % 256])

UnpackVec(bs, o, w, k) == TLCEval([i \in 1..k |-> Unpack(bs, o + (i - 1) * ((w * N) \div 8), w, N)])
PackVec(v, w) == FlattenSeq(TLCEval([i \in 1..Len(v) |-> Pack(v[i], w)]))

(* product of a (any range) and s (small, signed), modulo m, in Z[X]/(X^256 + 1) *)
PolyMul(a, s, m) ==
  LET e == TLCEval([k \in 1..512 |-> IF k <= N THEN -a[k] ELSE a[k - N]])
  IN TLCEval([i \in Idx |-> FoldLeft(LAMBDA acc, j: acc + s[j] * e[N + i - j + 1], 0, Js) % m])
PolyAdd(a, b, m) == TLCEval([i \in Idx |-> (a[i] + b[i]) % m])
InnerProduct(a, s, m) == FoldLeft(LAMBDA acc, i: PolyAdd(acc, PolyMul(a[i], s[i], m), m), [i \in Idx |-> 0], Upto(Len(s)))

(* the secret vector of a byte string of 13-bit integers, signed *)
Signed(c) == IF c >= Q \div 2 THEN c - Q ELSE c
SecretVec(bs, set) ==
  TLCEval([i \in 1..Dim(set) |-> LET u == Unpack(bs, (i - 1) * PolyQBytes, EpsQ, N) IN [k \in Idx |-> Signed(u[k])]])

(* GenMatrix and GenSecret *)
GenMatrix(seed, set) ==
  LET k == Dim(set)
      buf == SHAKE128(seed, k * k * PolyQBytes)
  IN TLCEval([r \in 1..k |-> UnpackVec(buf, (r - 1) * k * PolyQBytes, EpsQ, k)])

PopCount == TLCEval([v \in 0..31 |-> (v % 2) + ((v \div 2) % 2) + ((v \div 4) % 2) + ((v \div 8) % 2) + (v \div 16)])
GenSecret(seed, set) ==
  LET h == Mu(set) \div 2
      buf == SHAKE128(seed, (Dim(set) * N * Mu(set)) \div 8)
      g == Unpack(buf, 0, h, 2 * Dim(set) * N)
  IN TLCEval([i \in 1..Dim(set) |-> [k \in Idx |->
       LET j == 2 * ((i - 1) * N + (k - 1)) IN PopCount[g[j + 1]] - PopCount[g[j + 2]]]])

(* rounding from q to p *)
Round13to10(v) == TLCEval([i \in 1..Len(v) |-> [k \in Idx |-> ((v[i][k] + 4) % Q) \div 8]])
Column(A, j) == [i \in 1..Len(A) |-> A[i][j]]

(* the public vector b = round(A s) of a key pair *)
PublicVec(seed, s, set) ==
  LET A == GenMatrix(seed, set) IN
  PackVec(Round13to10(TLCEval([i \in 1..Dim(set) |-> InnerProduct(A[i], s, Q)])), EpsP)

(* Saber.PKE.Enc: message m and coins r (32 bytes each), public key pk *)
Enc(m, r, pk, set) ==
  LET A  == GenMatrix(SubSeq(pk, VecPBytes(set) + 1, VecPBytes(set) + 32), set)
      s  == GenSecret(r, set)
      bp == Round13to10(TLCEval([j \in 1..Dim(set) |-> InnerProduct(Column(A, j), s, Q)]))
      b  == UnpackVec(pk, 0, EpsP, Dim(set))
      v  == InnerProduct(b, s, P)
      mp == Unpack(m, 0, 1, N)
      c  == EpsP - Recon(set) - 1
      rec == TLCEval([k \in Idx |-> ((v[k] + mp[k] * 512) % P) \div Pow2[c + 1]])
  IN TLCEval(PackVec(bp, EpsP) \o Pack(rec, Recon(set) + 1))

(* Saber.PKE.Dec: the message *)
Dec(s, ct, set) ==
  LET bp == UnpackVec(ct, 0, EpsP, Dim(set))
      v  == InnerProduct(bp, s, P)
      rec == Unpack(ct, VecPBytes(set), Recon(set) + 1, N)
      c0 == EpsP - Recon(set) - 1
      c1 == Pow2[EpsP - 1] - Pow2[EpsP - 1 - Recon(set)]    \* 2^(EpsP-2) - 2^(EpsP-2-Recon)
      bits == TLCEval([k \in Idx |-> ((v[k] - rec[k] * Pow2[c0 + 1] + c1) % P) \div 512])
  IN Pack(bits, 1)

(* the parts of an encoded secret key *)
SkPk(sk, set)   == SubSeq(sk, VecQBytes(set) + 1, VecQBytes(set) + PkBytes(set))
SkHash(sk, set) == SubSeq(sk, SkBytes(set) - 63, SkBytes(set) - 32)
SkZ(sk, set)    == SubSeq(sk, SkBytes(set) - 31, SkBytes(set))

(* Saber.KEM.Decaps: <<shared secret, accepted, message>> *)
Decaps(sk, ct, set) ==
  LET s  == SecretVec(sk, set)
      m  == Dec(s, ct, set)
      kr == SHA3_512(SkHash(sk, set) \o m)
      r  == SubSeq(kr, 1, 32)
      ct2 == Enc(m, r, SkPk(sk, set), set)
      ok == ct2 = ct
  IN <<SHA3_256((IF ok THEN SHA3_256(ct2) ELSE SkZ(sk, set)) \o SubSeq(kr, 33, 64)), ok, m>>
=============================================================================
