------------------------------- MODULE Keccak -------------------------------
(* FIPS 202: SHA3-256, SHA3-512, SHAKE128 and SHAKE256 over byte sequences.            *)
(* A lane is four 16-bit limbs, least significant first; the state has 25    *)
(* lanes, lane x + 5y at index x + 5y + 1.                                   *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>

X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

(* Rotating a lane left by n moves n \div 16 whole limbs and then n % 16 bits:  *)
(* limb l is bits of two neighbouring limbs of the source                     *)
Rot(a, t) == <<((a[t[3]] * t[11]) % 65536) + (a[t[7]] \div t[12]), ((a[t[4]] * t[11]) % 65536) + (a[t[8]] \div t[12]),
               ((a[t[5]] * t[11]) % 65536) + (a[t[9]] \div t[12]), ((a[t[6]] * t[11]) % 65536) + (a[t[10]] \div t[12])>>
Rot1(a) == <<((a[1] * 2) % 65536) + (a[4] \div 32768), ((a[2] * 2) % 65536) + (a[1] \div 32768),
             ((a[3] * 2) % 65536) + (a[2] \div 32768), ((a[4] * 2) % 65536) + (a[3] \div 32768)>>
(* rho and pi: the lane that moves to position p, its column, the limbs its two parts come from, and the factors *)
RhoPi == <<
  <<1, 1, 1, 2, 3, 4, 4, 1, 2, 3, 1, 65536>>,
  <<7, 2, 3, 4, 1, 2, 2, 3, 4, 1, 4096, 16>>,
  <<13, 3, 3, 4, 1, 2, 2, 3, 4, 1, 2048, 32>>,
  <<19, 4, 4, 1, 2, 3, 3, 4, 1, 2, 32, 2048>>,
  <<25, 5, 1, 2, 3, 4, 4, 1, 2, 3, 16384, 4>>,
  <<4, 4, 4, 1, 2, 3, 3, 4, 1, 2, 4096, 16>>,
  <<10, 5, 4, 1, 2, 3, 3, 4, 1, 2, 16, 4096>>,
  <<11, 1, 1, 2, 3, 4, 4, 1, 2, 3, 8, 8192>>,
  <<17, 2, 3, 4, 1, 2, 2, 3, 4, 1, 8192, 8>>,
  <<23, 3, 2, 3, 4, 1, 1, 2, 3, 4, 8192, 8>>,
  <<2, 2, 1, 2, 3, 4, 4, 1, 2, 3, 2, 32768>>,
  <<8, 3, 1, 2, 3, 4, 4, 1, 2, 3, 64, 1024>>,
  <<14, 4, 4, 1, 2, 3, 3, 4, 1, 2, 512, 128>>,
  <<20, 5, 1, 2, 3, 4, 4, 1, 2, 3, 256, 256>>,
  <<21, 1, 4, 1, 2, 3, 3, 4, 1, 2, 4, 16384>>,
  <<5, 5, 4, 1, 2, 3, 3, 4, 1, 2, 2048, 32>>,
  <<6, 1, 3, 4, 1, 2, 2, 3, 4, 1, 16, 4096>>,
  <<12, 2, 1, 2, 3, 4, 4, 1, 2, 3, 1024, 64>>,
  <<18, 3, 1, 2, 3, 4, 4, 1, 2, 3, 32768, 2>>,
  <<24, 4, 2, 3, 4, 1, 1, 2, 3, 4, 256, 256>>,
  <<3, 3, 2, 3, 4, 1, 1, 2, 3, 4, 16384, 4>>,
  <<9, 4, 2, 3, 4, 1, 1, 2, 3, 4, 128, 512>>,
  <<15, 5, 3, 4, 1, 2, 2, 3, 4, 1, 128, 512>>,
  <<16, 1, 3, 4, 1, 2, 2, 3, 4, 1, 512, 128>>,
  <<22, 2, 1, 2, 3, 4, 4, 1, 2, 3, 4, 16384>> >>
(* the two lanes chi combines with lane p *)
ChiSrc == <<
  <<2, 3>>, <<3, 4>>, <<4, 5>>, <<5, 1>>, <<1, 2>>,
  <<7, 8>>, <<8, 9>>, <<9, 10>>, <<10, 6>>, <<6, 7>>,
  <<12, 13>>, <<13, 14>>, <<14, 15>>, <<15, 11>>, <<11, 12>>,
  <<17, 18>>, <<18, 19>>, <<19, 20>>, <<20, 16>>, <<16, 17>>,
  <<22, 23>>, <<23, 24>>, <<24, 25>>, <<25, 21>>, <<21, 22>> >>

(* the standard's 24 round constants *)
RC == <<
  <<1, 0, 0, 0>>,
  <<32898, 0, 0, 0>>,
  <<32906, 0, 0, 32768>>,
  <<32768, 32768, 0, 32768>>,
  <<32907, 0, 0, 0>>,
  <<1, 32768, 0, 0>>,
  <<32897, 32768, 0, 32768>>,
  <<32777, 0, 0, 32768>>,
  <<138, 0, 0, 0>>,
  <<136, 0, 0, 0>>,
  <<32777, 32768, 0, 0>>,
  <<10, 32768, 0, 0>>,
  <<32907, 32768, 0, 0>>,
  <<139, 0, 0, 32768>>,
  <<32905, 0, 0, 32768>>,
  <<32771, 0, 0, 32768>>,
  <<32770, 0, 0, 32768>>,
  <<128, 0, 0, 32768>>,
  <<32778, 0, 0, 0>>,
  <<10, 32768, 0, 32768>>,
  <<32897, 32768, 0, 32768>>,
  <<32896, 0, 0, 32768>>,
  <<1, 32768, 0, 0>>,
  <<32776, 32768, 0, 32768>> >>

X5(a, b, c, d, e) == <<((a[1] ^^ b[1]) ^^ (c[1] ^^ d[1])) ^^ e[1], ((a[2] ^^ b[2]) ^^ (c[2] ^^ d[2])) ^^ e[2],
                       ((a[3] ^^ b[3]) ^^ (c[3] ^^ d[3])) ^^ e[3], ((a[4] ^^ b[4]) ^^ (c[4] ^^ d[4])) ^^ e[4]>>
Chi(a, b, c) == <<a[1] ^^ ((65535 - b[1]) & c[1]), a[2] ^^ ((65535 - b[2]) & c[2]),
                  a[3] ^^ ((65535 - b[3]) & c[3]), a[4] ^^ ((65535 - b[4]) & c[4])>>
I5 == <<<<5, 2>>, <<1, 3>>, <<2, 4>>, <<3, 5>>, <<4, 1>>>>

Round(A, rc) ==
  LET C == TLCEval([x \in 1..5 |-> X5(A[x], A[x + 5], A[x + 10], A[x + 15], A[x + 20])])
      D == TLCEval([x \in 1..5 |-> X2(C[I5[x][1]], Rot1(C[I5[x][2]]))])
      B == TLCEval([p \in 1..25 |-> LET t == RhoPi[p] IN Rot(X2(A[t[1]], D[t[2]]), t)])
      E == TLCEval([p \in 1..25 |-> Chi(B[p], B[ChiSrc[p][1]], B[ChiSrc[p][2]])])
  IN [E EXCEPT ![1] = X2(@, rc)]

(* folds bind values, so that TLC evaluates every intermediate state once *)
Upto(n) == [i \in 1..n |-> i]
KeccakF(A) == FoldLeft(LAMBDA acc, i: Round(acc, RC[i]), A, Upto(24))

Zero25 == [p \in 1..25 |-> <<0, 0, 0, 0>>]

(* absorb the block of r bytes that starts after offset o; get(i) is byte i of the padded message *)
Limb(blk, p, l) == LET i == 8 * (p - 1) + 2 * (l - 1) IN blk[i + 1] + 256 * blk[i + 2]
Absorb1(A, blk, r) ==
  TLCEval([p \in 1..25 |-> IF p <= r \div 8 THEN X2(A[p], <<Limb(blk, p, 1), Limb(blk, p, 2), Limb(blk, p, 3), Limb(blk, p, 4)>>) ELSE A[p]])

Pad(msg, r, suffix) ==
  LET n == Len(msg)
      q == r - (n % r)
  IN IF q = 1 THEN Append(msg, suffix + 128)
     ELSE msg \o <<suffix>> \o [i \in 1..(q - 2) |-> 0] \o <<128>>

AbsorbAll(m, r) ==
  FoldLeft(LAMBDA acc, i: KeccakF(Absorb1(acc, SubSeq(m, (i - 1) * r + 1, i * r), r)), Zero25, Upto(Len(m) \div r))

OutBlock(A, n) ==
  [i \in 1..n |-> LET p == ((i - 1) \div 8) + 1
                      l == (((i - 1) % 8) \div 2) + 1
                  IN IF (i - 1) % 2 = 0 THEN A[p][l] % 256 ELSE A[p][l] \div 256]

(* squeeze: pairs <<state, output so far>> *)
Min2(a, b) == IF a < b THEN a ELSE b
Squeeze(A, r, n) ==
  FoldLeft(LAMBDA acc, i: LET st == IF i = 1 THEN acc[1] ELSE KeccakF(acc[1]) IN
             <<st, acc[2] \o OutBlock(st, Min2(r, n - (i - 1) * r))>>,
           <<A, <<>>>>, Upto((n + r - 1) \div r))[2]

(* CHOOSE binds values where LET and arguments would be evaluated again at every use *)
Sponge(msg, r, suffix, n) ==
  CHOOSE out \in { Squeeze(st, r, n) : st \in { AbsorbAll(m, r) : m \in {Pad(msg, r, suffix)} } } : TRUE

SHA3_256(m)     == Sponge(m, 136, 6, 32)
SHA3_512(m)     == Sponge(m, 72, 6, 64)
SHAKE128(m, n)  == Sponge(m, 168, 31, n)
SHAKE256(m, n)  == Sponge(m, 136, 31, n)
=============================================================================
