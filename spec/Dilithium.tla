----------------------------- MODULE Dilithium -----------------------------
(* CRYSTALS-Dilithium (version 3.1 with the hash lengths of the first draft  *)
(* of FIPS 204), written from the specification: key generation, signing     *)
(* and verification as functions over byte sequences.                        *)
(* Polynomials are sequences of 256 integers in Z_q[X]/(X^256 + 1).          *)
EXTENDS Keccak

Q == 8380417
N == 256
Idx == 1..256
Js == TLCEval([k \in 1..256 |-> k])
D == 13

K(set)    == CASE set = "2" -> 4 [] set = "3" -> 6 [] set = "5" -> 8
L(set)    == CASE set = "2" -> 4 [] set = "3" -> 5 [] set = "5" -> 7
Eta(set)  == IF set = "3" THEN 4 ELSE 2
Tau(set)  == CASE set = "2" -> 39 [] set = "3" -> 49 [] set = "5" -> 60
Beta(set) == Tau(set) * Eta(set)
Gamma1(set) == IF set = "2" THEN 131072 ELSE 524288
Gamma2(set) == IF set = "2" THEN 95232 ELSE 261888           \* (q-1)/88, (q-1)/32
Omega(set)  == CASE set = "2" -> 80 [] set = "3" -> 55 [] set = "5" -> 75
CBytes(set) == CASE set = "2" -> 32 [] set = "3" -> 48 [] set = "5" -> 64
EtaBits(set) == IF set = "3" THEN 4 ELSE 3
ZBits(set)   == IF set = "2" THEN 18 ELSE 20
W1Bits(set)  == IF set = "2" THEN 6 ELSE 4
PkLen(set)  == 32 + 320 * K(set)
SkLen(set)  == 128 + 32 * EtaBits(set) * (K(set) + L(set)) + 416 * K(set)
SigLen(set) == CBytes(set) + 32 * ZBits(set) * L(set) + Omega(set) + K(set)

(* F(v) with v evaluated once *)
Bind(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576,
        2097152, 4194304, 8388608, 16777216>>

---------------------------------------------------------------------------
(* n integers of w bits, little endian, in the bytes after offset o; and back *)
Bits(bs, o, w, n) ==
  TLCEval([i \in 1..n |->
    LET k == (i - 1) * w
        j == o + (k \div 8) + 1
        b(x) == IF x <= Len(bs) THEN bs[x] ELSE 0
    IN ((b(j) + 256 * b(j + 1) + 65536 * b(j + 2)) \div P2[(k % 8) + 1]) % P2[w + 1]])
ToBytes(cs, w) ==
  TLCEval([k \in 1..((Len(cs) * w) \div 8) |->
    LET lo == (8 * (k - 1)) \div w
        hi == (8 * (k - 1) + 7) \div w
        part(i) == LET s == w * i - 8 * (k - 1) IN
                   IF s >= 0 THEN (cs[i + 1] % 256) * P2[s + 1] ELSE cs[i + 1] \div P2[1 - s]
    IN FoldLeft(LAMBDA acc, x: acc + part(lo + x), part(lo), Upto(hi - lo)) % 256])

(* vectors of n polynomials with w-bit coefficients; Under: of coefficients c encoded as b - c *)
BitsVec(bs, o, w, n) == TLCEval([i \in 1..n |-> Bits(bs, o + 32 * w * (i - 1), w, N)])
VecBytes(v, w) == FlattenSeq(TLCEval([i \in 1..Len(v) |-> ToBytes(v[i], w)]))
Under(b, v) == TLCEval([i \in DOMAIN v |-> [j \in Idx |-> b - v[i][j]]])

---------------------------------------------------------------------------
(* a b modulo q; both in 0..q-1. Integers have 31 bits here *)
MulQ(a, b) ==
  LET h == (((a * (b \div 65536)) % Q) * 256) % Q
      m == (((h + ((a * ((b \div 256) % 256)) % Q)) % Q) * 256) % Q
  IN (m + ((a * (b % 256)) % Q)) % Q

(* 1753^BitRev(k), k = 0..255 *)
BitRev(k) == ((k % 2) * 128) + (((k \div 2) % 2) * 64) + (((k \div 4) % 2) * 32) + (((k \div 8) % 2) * 16)
             + (((k \div 16) % 2) * 8) + (((k \div 32) % 2) * 4) + (((k \div 64) % 2) * 2) + (k \div 128)
Powers == FoldLeft(LAMBDA acc, i: Append(acc, MulQ(acc[Len(acc)], 1753)), <<1>>, Upto(255))

Zetas == Bind(Powers, LAMBDA p: TLCEval([k \in 1..256 |-> p[BitRev(k - 1) + 1]]))

(* z: the zetas, passed along: because TLC would compute a definition again at every use *)
NttLayer(a, len, z) ==
  TLCEval([i \in Idx |->
    LET p == (i - 1) % (2 * len)
        b == z[(128 \div len) + ((i - 1) \div (2 * len)) + 1]
    IN IF p < len THEN (a[i] + MulQ(a[i + len], b)) % Q ELSE (a[i - len] - MulQ(a[i], b)) % Q])
Ntt(a, z) == FoldLeft(LAMBDA acc, len: NttLayer(acc, len, z), a, <<128, 64, 32, 16, 8, 4, 2, 1>>)
InvLayer(a, len, z) ==
  TLCEval([i \in Idx |->
    LET p == (i - 1) % (2 * len)
        b == z[(256 \div len) - ((i - 1) \div (2 * len))]
    IN IF p < len THEN (a[i] + a[i + len]) % Q ELSE MulQ((a[i] - a[i - len]) % Q, b)])
InvNtt(a, z) ==
  Bind(FoldLeft(LAMBDA acc, len: InvLayer(acc, len, z), a, <<1, 2, 4, 8, 16, 32, 64, 128>>),
       LAMBDA r: TLCEval([i \in Idx |-> MulQ(r[i], 8347681)]))          \* 1/256

Modq(v) == TLCEval([i \in DOMAIN v |-> [j \in Idx |-> v[i][j] % Q]])
NttVec(v, z) == TLCEval([i \in 1..Len(v) |-> Ntt(v[i], z)])
InvVec(v, z) == TLCEval([i \in 1..Len(v) |-> InvNtt(v[i], z)])
MulVec(c, v) == TLCEval([i \in 1..Len(v) |-> [j \in Idx |-> MulQ(c[j], v[i][j])]])     \* in the NTT domain
AddVec(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in Idx |-> (a[i][j] + b[i][j]) % Q]])
SubVec(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in Idx |-> (a[i][j] - b[i][j]) % Q]])
MatVec(A, v) ==
  TLCEval([i \in 1..Len(A) |-> FoldLeft(LAMBDA acc, j: TLCEval([x \in Idx |-> (acc[x] + MulQ(A[i][j][x], v[j][x])) % Q]),
                                        [x \in Idx |-> 0], Upto(Len(v)))])

(* the representative in -(q-1)/2 .. (q-1)/2 *)
Cent(x) == IF x > Q \div 2 THEN x - Q ELSE x
CentVec(v) == TLCEval([i \in 1..Len(v) |-> [j \in Idx |-> Cent(v[i][j])]])
AbsV(x) == IF x < 0 THEN 0 - x ELSE x
(* every centred coefficient of absolute value below b *)
Below(v, b) == \A i \in 1..Len(v) : \A j \in Idx : AbsV(v[i][j]) < b

---------------------------------------------------------------------------
(* sampling *)
First256(s) == SubSeq(s, 1, 256)
RejUniform(bs) ==
  First256(SelectSeq(TLCEval([i \in 1..(Len(bs) \div 3) |-> bs[3 * i - 2] + 256 * bs[3 * i - 1] + 65536 * (bs[3 * i] % 128)]),
                   LAMBDA t: t < Q))
ExpandA(rho, set) ==
  TLCEval([i \in 1..K(set) |-> [j \in 1..L(set) |-> Bind(SHAKE128(rho \o <<j - 1, i - 1>>, 840), RejUniform)]])
RejEta(bs, set) ==
  LET e == Eta(set)
      n == TLCEval([i \in 1..(2 * Len(bs)) |-> IF i % 2 = 1 THEN bs[(i + 1) \div 2] % 16 ELSE bs[i \div 2] \div 16])
      ok == First256(SelectSeq(n, LAMBDA t: t < (IF e = 2 THEN 15 ELSE 9)))
  IN TLCEval([i \in Idx |-> IF e = 2 THEN 2 - (ok[i] % 5) ELSE 4 - ok[i]])
ExpandS(seed, from, n, set) ==
  TLCEval([i \in 1..n |-> Bind(SHAKE256(seed \o <<from + i - 1, 0>>, 408), LAMBDA bs: RejEta(bs, set))])
ExpandMask(seed, kappa, set) ==
  TLCEval([i \in 1..L(set) |->
    LET k == kappa + i - 1 IN
    Bind(SHAKE256(seed \o <<k % 256, k \div 256>>, 32 * ZBits(set)),
         LAMBDA bs: Bind(Bits(bs, 0, ZBits(set), N), LAMBDA b: TLCEval([j \in Idx |-> Gamma1(set) - b[j]])))])
(* tau coefficients of absolute value 1: Fisher-Yates from the bytes after the 64 signs *)
SampleInBall(ct, set) ==
  LET bs == SHAKE256(SubSeq(ct, 1, 32), 272)
      sign(n) == 1 - 2 * ((bs[(n \div 8) + 1] \div P2[(n % 8) + 1]) % 2)
      step(acc, x) ==                 \* acc: <<next position, coefficients>>
        LET i == acc[1]  b == bs[x] IN
        IF i > 255 \/ b > i THEN acc
        ELSE <<i + 1, TLCEval([[acc[2] EXCEPT ![i + 1] = acc[2][b + 1]] EXCEPT ![b + 1] = sign(i - (256 - Tau(set)))])>>
  IN FoldLeft(step, <<256 - Tau(set), [j \in Idx |-> 0]>>, [x \in 1..264 |-> x + 8])[2]

Challenge(ct, z, set) == Bind(SampleInBall(ct, set), LAMBDA s: Ntt(TLCEval([j \in Idx |-> s[j] % Q]), z))

---------------------------------------------------------------------------
(* rounding *)
R1(r) == (r + 4095) \div 8192                        \* Power2Round: r = r1 2^13 + r0, r0 in ]-2^12, 2^12]
R0(r) == r - 8192 * R1(r)
(* Decompose: r = r1 2 gamma2 + r0 modulo q, r0 in ]-gamma2, gamma2], except that r1 = (q-1)/(2 gamma2) becomes 0 *)
LowRaw(r, g) == LET x == r % (2 * g) IN IF x > g THEN x - 2 * g ELSE x
High(r, g) == LET x == LowRaw(r, g) IN IF r - x = Q - 1 THEN 0 ELSE (r - x) \div (2 * g)
Low(r, g)  == LET x == LowRaw(r, g) IN IF r - x = Q - 1 THEN x - 1 ELSE x
UseHint(h, r, g) ==
  LET m == (Q - 1) \div (2 * g) IN
  IF h = 0 THEN High(r, g) ELSE IF Low(r, g) > 0 THEN (High(r, g) + 1) % m ELSE (High(r, g) - 1) % m
HighVec(v, g) == TLCEval([i \in 1..Len(v) |-> [j \in Idx |-> High(v[i][j], g)]])
LowVec(v, g)  == TLCEval([i \in 1..Len(v) |-> [j \in Idx |-> Low(v[i][j], g)]])

---------------------------------------------------------------------------
(* the hint: positions of ones, polynomial by polynomial, padded with zeros, then the running counts *)
HintBytes(h, set) ==
  LET ones == TLCEval([i \in 1..K(set) |-> SelectSeq(Js, LAMBDA j: h[i][j] = 1)])
      pos == FlattenSeq(TLCEval([i \in 1..K(set) |-> [x \in 1..Len(ones[i]) |-> ones[i][x] - 1]]))
      cnt(i) == FoldLeft(LAMBDA acc, x: acc + Len(ones[x]), 0, Upto(i))
  IN TLCEval([x \in 1..Omega(set) |-> IF x <= Len(pos) THEN pos[x] ELSE 0] \o [i \in 1..K(set) |-> cnt(i)])
Ones(h) == FoldLeft(LAMBDA acc, i: acc + Len(SelectSeq(Js, LAMBDA j: h[i][j] = 1)), 0, Upto(Len(h)))
(* y: the last omega + k bytes of a signature. Is it the encoding of a hint, and of which one? *)
HintEnd(y, i, set) == IF i = 0 THEN 0 ELSE y[Omega(set) + i]
HintOk(y, set) ==
  /\ \A i \in 1..K(set) : HintEnd(y, i, set) <= Omega(set) /\ HintEnd(y, i - 1, set) <= HintEnd(y, i, set)
  /\ \A i \in 1..K(set) : \A x \in (HintEnd(y, i - 1, set) + 2)..HintEnd(y, i, set) : y[x - 1] < y[x]
  /\ \A x \in (HintEnd(y, K(set), set) + 1)..Omega(set) : y[x] = 0
HintOf(y, set) ==
  TLCEval([i \in 1..K(set) |->
    LET S == {y[x] : x \in (HintEnd(y, i - 1, set) + 1)..HintEnd(y, i, set)} IN [j \in Idx |-> IF j - 1 \in S THEN 1 ELSE 0]])

---------------------------------------------------------------------------
(* the parts of encoded keys and signatures *)
SkS1(sk, set) == Under(Eta(set), BitsVec(sk, 128, EtaBits(set), L(set)))
SkS2(sk, set) == Under(Eta(set), BitsVec(sk, 128 + 32 * EtaBits(set) * L(set), EtaBits(set), K(set)))
SkT0(sk, set) == Under(4096, BitsVec(sk, 128 + 32 * EtaBits(set) * (L(set) + K(set)), 13, K(set)))
SigC(sig, set) == SubSeq(sig, 1, CBytes(set))
SigZ(sig, set) == Under(Gamma1(set), BitsVec(sig, CBytes(set), ZBits(set), L(set)))
SigY(sig, set) == SubSeq(sig, SigLen(set) - Omega(set) - K(set) + 1, SigLen(set))

(* key generation from coins: <<public key, secret key>>. A is the matrix of rho *)
KeySeed(coins) == SHAKE256(coins, 128)
KeyPair(sd, A, z, set) ==
  LET rho == SubSeq(sd, 1, 32)
      s1 == ExpandS(SubSeq(sd, 33, 96), 0, L(set), set)
      s2 == ExpandS(SubSeq(sd, 33, 96), L(set), K(set), set)
      t == AddVec(InvVec(MatVec(A, NttVec(Modq(s1), z)), z), s2)
      t1 == TLCEval([i \in 1..K(set) |-> [j \in Idx |-> R1(t[i][j])]])
      t0 == TLCEval([i \in 1..K(set) |-> [j \in Idx |-> R0(t[i][j])]])
      pk == rho \o VecBytes(t1, 10)
  IN Bind(pk, LAMBDA p:
       <<p, rho \o SubSeq(sd, 97, 128) \o SHAKE256(p, 64) \o VecBytes(Under(Eta(set), s1), EtaBits(set))
            \o VecBytes(Under(Eta(set), s2), EtaBits(set)) \o VecBytes(Under(4096, t0), 13)>>)

(* One attempt at signing: <<how it ended, signature>>. NTT domain: s1, s2, t0 *)
Attempt(A, z, s1, s2, t0, mu, rp, kappa, set) ==
  LET g2 == Gamma2(set)
      y  == ExpandMask(rp, kappa, set)
      w  == InvVec(MatVec(A, NttVec(Modq(y), z)), z)
  IN Bind(HighVec(w, g2), LAMBDA w1:
     Bind(SHAKE256(mu \o VecBytes(w1, W1Bits(set)), CBytes(set)), LAMBDA ct:
     Bind(Challenge(ct, z, set), LAMBDA c:
     Bind(CentVec(AddVec(InvVec(MulVec(c, s1), z), Modq(y))), LAMBDA zz:
     Bind(SubVec(w, InvVec(MulVec(c, s2), z)), LAMBDA wr:
     LET zok == Below(zz, Gamma1(set) - Beta(set))
         rok == Below(LowVec(wr, g2), g2 - Beta(set))
         ct0 == CentVec(InvVec(MulVec(c, t0), z))
         h   == LET u == AddVec(wr, ct0) IN
                TLCEval([i \in 1..K(set) |-> [j \in Idx |-> IF High(wr[i][j], g2) = High(u[i][j], g2) THEN 0 ELSE 1]])
         hok == Below(ct0, g2) /\ Ones(h) <= Omega(set)
         sig == ct \o VecBytes(Under(Gamma1(set), zz), ZBits(set)) \o HintBytes(h, set)
         zfit == \A i \in 1..L(set) : \A j \in Idx : zz[i][j] > 0 - Gamma1(set) /\ zz[i][j] <= Gamma1(set)
     IN IF ~ zok THEN IF zfit /\ rok /\ hok THEN <<"z", sig>> ELSE <<"no", <<>>>>
        ELSE IF ~ rok THEN IF hok THEN <<"r", sig>> ELSE <<"no", <<>>>>
        ELSE IF ~ hok THEN <<"no", <<>>>> ELSE <<"ok", sig>>)))))

(* at most cap attempts, up to the first one whose outcome is in Ends: <<outcome, signature, number of attempts>> *)
SignUntil(Ends, cap, sk, m, A, z, set) ==
  Bind(<<NttVec(Modq(SkS1(sk, set)), z), NttVec(Modq(SkS2(sk, set)), z), NttVec(Modq(SkT0(sk, set)), z)>>, LAMBDA s:
  Bind(SHAKE256(SubSeq(sk, 65, 128) \o m, 64), LAMBDA mu:
  Bind(SHAKE256(SubSeq(sk, 33, 64) \o [x \in 1..32 |-> 0] \o mu, 64), LAMBDA rp:
    FoldLeft(LAMBDA acc, n: IF acc[1] \in Ends THEN acc
                            ELSE Bind(Attempt(A, z, s[1], s[2], s[3], mu, rp, L(set) * (n - 1), set), LAMBDA a: <<a[1], a[2], n>>),
             <<"none", <<>>, 0>>, Upto(cap)))))
Sign(sk, m, A, z, set) == SignUntil({"ok"}, 500, sk, m, A, z, set)

(* verification of sig for m under pk *)
Verify(pk, m, sig, A, z, set) ==
  /\ Len(sig) = SigLen(set)
  /\ HintOk(SigY(sig, set), set)
  /\ Bind(SigZ(sig, set), LAMBDA zz:
     /\ Below(zz, Gamma1(set) - Beta(set))
     /\ Bind(SHAKE256(SHAKE256(pk, 64) \o m, 64), LAMBDA mu:
        Bind(Challenge(sig, z, set), LAMBDA c:
        Bind(BitsVec(pk, 32, 10, K(set)), LAMBDA t1:
        LET t == NttVec(TLCEval([i \in 1..K(set) |-> [j \in Idx |-> t1[i][j] * 8192]]), z)
            w == InvVec(SubVec(MatVec(A, NttVec(Modq(zz), z)), MulVec(c, t)), z)
            h == HintOf(SigY(sig, set), set)
            w1 == TLCEval([i \in 1..K(set) |-> [j \in Idx |-> UseHint(h[i][j], w[i][j], Gamma2(set))]])
        IN SigC(sig, set) = SHAKE256(mu \o VecBytes(w1, W1Bits(set)), CBytes(set))))))

---------------------------------------------------------------------------
(* Forgeries for the public key rho || 0...0: it has no secret, A z is the   *)
(* commitment, so that every response z and every hint h (a set of positions *)
(* per polynomial) verify unless one of the checks of the algorithm objects. *)
(* y: how the hint is written down.                                          *)
FlatKey(rho, set) == rho \o [x \in 1..(320 * K(set)) |-> 0]
Forge(rho, m, zz, h, y, A, z, set) ==
  Bind(SHAKE256(SHAKE256(FlatKey(rho, set), 64) \o m, 64), LAMBDA mu:
  Bind(InvVec(MatVec(A, NttVec(Modq(zz), z)), z), LAMBDA w:
  Bind(TLCEval([i \in 1..K(set) |-> [j \in Idx |-> UseHint(IF j - 1 \in h[i] THEN 1 ELSE 0, w[i][j], Gamma2(set))]]), LAMBDA w1:
    SHAKE256(mu \o VecBytes(w1, W1Bits(set)), CBytes(set)) \o VecBytes(Under(Gamma1(set), zz), ZBits(set)) \o y)))
PowQ(a, e) == FoldLeft(LAMBDA acc, b: LET s == MulQ(acc, acc) IN IF (e \div P2[b]) % 2 = 1 THEN MulQ(s, a) ELSE s, 1,
                       [x \in 1..23 |-> 24 - x])
InvQ(a) == PowQ(a, Q - 2)
=============================================================================
