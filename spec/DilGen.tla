------------------------------- MODULE DilGen -------------------------------
(* Keys, messages and signatures computed by the specification, for the real *)
(* code to be tried on:                                                      *)
(*   n = 0, 1, ..: honest signatures, and signatures by a signer that leaves *)
(*        out one of the checks of the algorithm;                            *)
(*   negative n: forgeries for a key without a secret, which only the checks *)
(*        of the verification can tell from signatures: responses at the     *)
(*        limits, hints of every shape, commitments at the borders of the    *)
(*        rounding. Half of the keys, and the first honest ones, have a      *)
(*        matrix (or a secret) whose sampling met a border (DilCorners).      *)
EXTENDS Dilithium, DilCorners, Json, IOUtils

VARIABLES set, n, q
vars == <<set, n, q>>
Num == atoi(IOEnv.NUM)
Flat == atoi(IOEnv.FLAT)
Seed == atoi(IOEnv.SEED)

Bytes(tag, len) == SHAKE256(<<tag, n % 256, (n \div 256) % 256, Seed % 256, (Seed \div 256) % 256>>, len)
MsgLen == <<0, 1, 33, 135, 136, 137, 300, 71, 72, 73>>[(n % 10) + 1]

Honest(z) ==
    Bind(IF n < Len(CornerCoins[set]) THEN CornerCoins[set][n + 1] ELSE Bytes(1, 32), LAMBDA coins:
    Bind(Bytes(2, MsgLen), LAMBDA m:
    Bind(KeySeed(coins), LAMBDA sd:
    Bind(ExpandA(SubSeq(sd, 1, 32), set), LAMBDA A:
    Bind(KeyPair(sd, A, z, set), LAMBDA kp:
      PrintT(ToJson([set |-> set, coins |-> coins, m |-> m, pk |-> kp[1], sk |-> kp[2],
                     good |-> Sign(kp[2], m, A, z, set)[2],
                     big |-> SignUntil({"z"}, 60, kp[2], m, A, z, set)[2],
                     low |-> SignUntil({"r"}, 60, kp[2], m, A, z, set)[2]])) )))))

---------------------------------------------------------------------------
KK == K(set)
Om == Omega(set)
NoHint == [i \in 1..KK |-> {}]
Zeros(k) == [x \in 1..k |-> 0]
(* the hint written down in order; end: the counts if they are others *)
Sorted(S) == SelectSeq(TLCEval([k \in 1..256 |-> k - 1]), LAMBDA x: x \in S)
Pos(h) == FlattenSeq([i \in 1..KK |-> Sorted(h[i])])
Counts(h) == [i \in 1..KK |-> FoldLeft(LAMBDA acc, x: acc + Cardinality(h[x]), 0, Upto(i))]
Y(h) == Bind(Pos(h), LAMBDA p: p \o Zeros(Om - Len(p)) \o Counts(h))

(* r: random bytes; small random response; and with coefficient c of polynomial p set to v *)
Small(r) == TLCEval([i \in 1..L(set) |-> [j \in Idx |-> ((r[((i * 37 + j) % 256) + 1] * 256 + r[((i * 91 + 3 * j) % 256) + 1]) % 60000) - 30000]])
With(zz, p, c, v) == [zz EXCEPT ![p][c] = v]
(* four random positions in every polynomial *)
Some(r) == TLCEval([i \in 1..KK |-> {r[4 * i], r[4 * i + 1], r[4 * i + 2], r[4 * i + 3]}])
Upper == [x \in 1..256 |-> x - 1]
(* exactly Om positions: in all the polynomials, or in one *)
Spread(r) == TLCEval([i \in 1..KK |-> LET c == (Om \div KK) + (IF i <= Om % KK THEN 1 ELSE 0) IN {(r[i] + 7 * x) % 256 : x \in 1..c}])
OneFull(i) == [NoHint EXCEPT ![i] = 1..Om]
Ends == [i \in 1..KK |-> {0, 255}]

(* a response with one nonzero coefficient v for which some coefficient of the commitment is t: <<response, row, coefficient>> *)
Target(A, z, t, r) ==
  LET B == Gamma1(set) - Beta(set)
      row == (r[1] % KK) + 1
      col == (r[2] % L(set)) + 1
  IN Bind(InvNtt(A[row][col], z), LAMBDA a:
       LET c == SelectSeq(Js, LAMBDA j: a[j] # 0 /\ AbsV(Cent(MulQ(t, InvQ(a[j])))) < B)[1] IN
       <<With([i \in 1..L(set) |-> Zeros(256)], col, 1, Cent(MulQ(t, InvQ(a[c])))), row, c>>)
Targets == LET g == Gamma2(set) IN
  <<g, g + 1, 0 - g, 0 - g - 1, 1, Q - 1, 2 * g, 2 * g + 1, 2 * g - 1, 3 * g, 3 * g + 1, Q - 1 - g, Q - g, Q - 2 * g, Q \div 2, Q - g + 1>>

(* case k: <<why, response, hint, written>> *)
Groups == 8
Case(k, r, A, z) ==
  LET s == Small(r)
      B == Gamma1(set) - Beta(set)
      p == (r[3] % L(set)) + 1
      c == r[4] + 1
      h == Some(r)
      lim(v, why) == <<why, With(s, p, c, v), h, Y(h)>>
      hint(h2, y, why) == <<why, s, h2, y>>
      tgt(t, hb) == Bind(Target(A, z, t % Q, r), LAMBDA x:
                         Bind(IF hb = 1 THEN [NoHint EXCEPT ![x[2]] = {x[3] - 1}] ELSE NoHint, LAMBDA h2:
                              <<"commitment " \o ToString(t) \o ", hint " \o ToString(hb), x[1], h2, Y(h2)>>))
      a == Len(Pos(h))
  IN CASE k = 1  -> lim(B - 1, "response: largest")
       [] k = 2  -> lim(B, "response: too large")
       [] k = 3  -> lim(1 - B, "response: smallest")
       [] k = 4  -> lim(0 - B, "response: too small")
       [] k = 5  -> lim(Gamma1(set), "response: largest with an encoding")
       [] k = 6  -> lim(1 - Gamma1(set), "response: smallest with an encoding")
       [] k = 7  -> <<"response: too large at the very end", With(s, L(set), 256, B), h, Y(h)>>
       [] k = 8  -> <<"response: too small at the very start", With(s, 1, 1, 0 - B), h, Y(h)>>
       [] k = 9  -> hint(NoHint, Y(NoHint), "hint: none")
       [] k = 10 -> hint(Spread(r), Y(Spread(r)), "hint: as many as can be")
       [] k = 11 -> hint(OneFull(1), Y(OneFull(1)), "hint: all in the first polynomial")
       [] k = 12 -> hint(OneFull(KK), Y(OneFull(KK)), "hint: all in the last polynomial")
       [] k = 13 -> hint(Ends, Y(Ends), "hint: first and last positions")
       [] k = 14 -> hint(h, [[Y(h) EXCEPT ![1] = Y(h)[2]] EXCEPT ![2] = Y(h)[1]], "hint: not in order")
       [] k = 15 -> hint(h, SubSeq(Pos(h), 1, a) \o <<Pos(h)[a]>> \o Zeros(Om - a - 1) \o [i \in 1..KK |-> IF i = KK THEN a + 1 ELSE Counts(h)[i]],
                         "hint: a position twice")
       [] k = 16 -> hint(h, [Y(h) EXCEPT ![Om] = 1], "hint: something at the end of the padding")
       [] k = 17 -> hint(h, [Y(h) EXCEPT ![a + 1] = 255], "hint: something at the start of the padding")
       [] k = 18 -> hint([i \in 1..KK |-> IF i = 1 THEN {4, 9} ELSE IF i = 3 THEN {9} ELSE {}],
                         <<4, 9>> \o Zeros(Om - 2) \o [i \in 1..KK |-> IF i = 2 THEN 1 ELSE 2], "hint: a count lower than the one before")
       [] k = 19 -> hint([i \in 1..KK |-> IF i = 1 THEN {20, 30, 40, 50, 60} ELSE IF i = KK - 1 THEN 0..(Om - 7) ELSE IF i = KK THEN {3, 5} ELSE {}],
                         <<20, 30, 40, 50, 60>> \o [x \in 1..(Om - 6) |-> x - 1] \o <<3>> \o [i \in 1..KK |-> IF i < KK - 1 THEN 5 ELSE IF i = KK - 1 THEN Om - 1 ELSE Om + 1],
                         "hint: one more than can be")
       [] k = 20 -> hint([h EXCEPT ![KK] = {}], [Y([h EXCEPT ![KK] = {}]) EXCEPT ![a - Cardinality(h[KK]) + 1] = 1], "hint: something after no hint in the last polynomial")
       [] k = 21 -> hint(h, Y([h EXCEPT ![1] = @ \cup {(CHOOSE x \in 0..255 : x \notin h[1])}]), "hint: another one is written down")
       [] OTHER -> tgt(Targets[((k - 22) \div 2) + 1], k % 2)
NumCases == 21 + 32

(* group g: the cases that are g modulo Groups, or a selection of Flat of them *)
Forgeries(z) ==
  LET g == (0 - n) - 1
      mine == SelectSeq([k \in 1..NumCases |-> k], LAMBDA k: k % Groups = g)
      pick == IF Flat >= Len(mine) THEN mine ELSE [x \in 1..Flat |-> mine[((x + Seed) % Len(mine)) + 1]]
  IN Bind(IF g % 2 = 0 THEN CornerRho[set][(g \div 2) + 1] ELSE Bytes(3, 32), LAMBDA rho:
     Bind(ExpandA(rho, set), LAMBDA A:
       PrintT(ToJson([set |-> set, flat |-> TRUE, pk |-> FlatKey(rho, set),
                      cases |-> [x \in 1..Len(pick) |->
                        Bind(SHAKE256(<<4, pick[x], Seed % 256, (Seed \div 256) % 256>>, 300), LAMBDA r:
                        Bind(Case(pick[x], r, A, z), LAMBDA c:
                          [why |-> c[1], m |-> SubSeq(r, 257, 300), sig |-> Forge(rho, SubSeq(r, 257, 300), c[2], c[3], c[4], A, z, set)]))]])) ))

Emit == q = 1 => Bind(Zetas, LAMBDA z: IF n >= 0 THEN Honest(z) ELSE Forgeries(z))

Init == set \in {"2", "3", "5"} /\ n \in ((0 - Groups)..(0 - 1)) \cup (0..(Num - 1)) /\ q = 0
Next == q = 0 /\ q' = 1 /\ UNCHANGED <<set, n>>
Spec == Init /\ [][Next]_vars
=============================================================================
