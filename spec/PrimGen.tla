------------------------------ MODULE PrimGen ------------------------------
(* Explores the object machines of Prim.tla and writes down behaviours for   *)
(* the real code: a base, every sequence of at most d choices, and a sweep   *)
(* that uses everything on the heap.                                         *)
EXTENDS Prim, Json, IOUtils

JOB == IOEnv.JOB
Quick == IOEnv.TIER # "thorough"
N0(o) == Op(o, 0, 0, 0, "", 0)
X(o, x) == Op(o, x, 0, 0, "", 0)
XY(o, x, y) == Op(o, x, y, 0, "", 0)
XYZ(o, x, y, z) == Op(o, x, y, z, "", 0)
Fl(x, f, n) == Op("fl", x, 0, 0, f, n)
Of(H, ty) == {i \in 1..Len(H) : H[i].ty = ty}
AsSeq(S) == SetToSeq(S)

(* a job: machine, set, base operations, number of choices, family, weight *)
Job(p, set, base, d, fam, w) == [p |-> p, set |-> set, base |-> base, d |-> d, fam |-> fam, w |-> w]

KSets == {"light", "saber", "fire"}
TwoKeys == <<N0("kg"), X("pub", 1), N0("kg"), X("pub", 3)>>                       \* sk 1, pk 2, sk 3, pk 4
TwoKeysCts == TwoKeys \o <<X("en", 2), X("en", 4)>>                                \* ss 5, ct 6, ss 7, ct 8
Cpa == <<N0("ckg"), X("cen", 1), X("cen", 1), XY("cde", 4, 2)>>                     \* pk 1, csk 2, cs 3, ct 4, cs 5, ct 6

Deltas(H, ty, set) == {0 - 1, 1, 0 - KLen(ty, set), 0 - 32, 32, KLen(ty, set), 0}
KemChoices(fam, H, set, k) ==
  LET rts == {Op("rt", i, 0, 0, "", h) : i \in Of(H, "pk") \cup Of(H, "sk") \cup Of(H, "ct") \cup Of(H, "ss"), h \in 0..2}
      crt == {Op("rt", i, 0, 0, "cpk", h) : i \in Of(H, "pk"), h \in 0..2}
      des == {XY("de", c, s) : c \in Of(H, "ct"), s \in Of(H, "sk")}
      ens == {X("en", q) : q \in Of(H, "pk")}
      alts == {Fl(i, f, n) : i \in Of(H, "ct"), f \in {"b", "r"}, n \in 0..3}
              \cup {Fl(i, f, n) : i \in Of(H, "pk"), f \in {"b", "s"}, n \in 0..3}
              \cup {Fl(i, f, n) : i \in Of(H, "sk"), f \in {"z", "h"}, n \in 0..3}
  IN CASE fam = "honest" -> rts \cup crt \cup des \cup ens \cup {N0("ckg"), N0("dir")}
       [] fam = "cpa"    -> {XY("cde", c, q) : c \in Of(H, "ct"), q \in Of(H, "csk")} \cup {X("cen", q) : q \in Of(H, "pk")}
                            \cup crt \cup {N0("ckg"), N0("kg")} \cup {X("pub", s) : s \in Of(H, "sk")} \cup {X("en", q) : q \in Of(H, "pk")}
       [] fam = "alter"  -> alts \cup {Op("cc", 0, 0, 0, "", n) : n \in 0..2} \cup ens
       [] fam = "bad"    -> {Op("bl", 0, 0, h, ty, dl) : h \in 0..2, ty \in {"pk", "sk", "ct", "ss", "cpk"}, dl \in {0 - 1, 1, 0 - 32, 32, 0 - 9999, 9999, 0}}
       [] OTHER -> {}

KemSweep(fam, H) ==
  IF fam = "bad" THEN <<>>
  ELSE LET d == {XY("de", c, s) : c \in Of(H, "ct"), s \in Of(H, "sk")}
           e == {XY("cde", c, q) : c \in Of(H, "ct"), q \in Of(H, "csk")}
       IN AsSeq(d) \o AsSeq(e) \o (IF fam = "alter" THEN AsSeq(d) ELSE <<>>)

(* ------------------------------------------------------------------------ *)
SSets == {"2", "3", "5"}
B(op, be) == [op EXCEPT !.n = be]
MsgKinds == 0..9
(* two keys, a message and a changed one, a signed message and two signatures by the first key, one by the second *)
SigBase(be, mk, ma) ==
  <<B(N0("kp"), be), B(N0("kp"), be), Op("msg", 0, 0, 0, "", mk), Op("ma", 5, 0, 0, ma, 0),     \* pk 1 sk 2 pk 3 sk 4 msg 5 msg' 6
    Op("sg", 2, 5, 0, "", be), Op("ds", 2, 5, 0, "", be), Op("ds", 4, 5, 0, "", be), Op("ds", 2, 6, 0, "", be)>>  \* sm 7 sig 8 sig 9 sig 10
SigAlts(H) ==
  {Fl(i, f, n) : i \in Of(H, "sig") \cap {8}, f \in {"c", "z", "h"}, n \in 0..3}
  \cup {Fl(i, f, 0) : i \in Of(H, "sig") \cap {8}, f \in {"hs", "hp", "hd", "he"}}
  \cup {Fl(i, "tr", n) : i \in Of(H, "sig") \cap {8}, n \in {1, 2, 3}}
  \cup {Fl(i, f, n) : i \in Of(H, "sm") \cap {7}, f \in {"c", "z", "h", "m"}, n \in 0..3}
  \cup {Fl(i, f, 0) : i \in Of(H, "sm") \cap {7}, f \in {"hs", "hp", "hd", "he", "mtr", "mex"}}
  \cup {Fl(i, "cut", n) : i \in Of(H, "sm") \cap {7}, n \in {1, 2, 3}}
  \cup {Fl(i, f, n) : i \in {1}, f \in {"rho", "t1"}, n \in 0..3}
  \cup {X("sp", i) : i \in Of(H, "sm")} \cup {XY("jn", s, m) : s \in Of(H, "sig"), m \in Of(H, "msg")}
SigChoices(fam, H, set, k) ==
  CASE fam = "alter" -> SigAlts(H)
    [] fam = "msgs" -> {X("sp", i) : i \in Of(H, "sm")}
    \* a detached signature that is too short is only rejected when it is verified: its encoding is still what it was made of
    [] fam = "short" -> {Fl(i, "tr", n) : i \in {8, 9}, n \in {1, 2, 3}}
    [] fam = "eq" -> {Fl(i, "rho", n) : i \in {1, 2}, n \in 0..3} \cup {Fl(i, "t1", n) : i \in {1, 2}, n \in 0..3}
    [] fam = "enc" -> {Op("rt", i, 0, 0, "", h) : i \in 1..Len(H), h \in 0..1}
    [] fam = "bad" -> {Op("bl", 0, 0, 0, ty, dl) : ty \in {"pk", "sk", "sig"}, dl \in {1, 32, 9999, 0}}
                      \cup {Op("bl", 0, 0, 0, ty, dl) : ty \in {"pk", "sk"}, dl \in {0 - 1, 0 - 32, 0 - 9999}}
    [] OTHER -> {}
(* backend of the verifications *)
SigSweep(fam, H, be) ==
  IF fam = "bad" THEN <<>>
  ELSE IF fam = "eq" THEN AsSeq({XY("eq", i, j) : i \in Of(H, "pk"), j \in Of(H, "pk")}) \o AsSeq({XY("eq", i, j) : i \in Of(H, "sk"), j \in Of(H, "sk")})
                          \o AsSeq({Op("sz", 0, 0, 0, ty, 0) : ty \in {"pk", "sk", "sig"}})
  ELSE (IF fam = "short" THEN AsSeq({X("rt", i) : i \in Of(H, "sig")}) ELSE <<>>)
       \o AsSeq({Op("vf", s, m, q, "", be) : s \in Of(H, "sig"), m \in Of(H, "msg"), q \in Of(H, "pk")})
       \o AsSeq({Op("op", s, q, 0, "", be) : s \in Of(H, "sm"), q \in Of(H, "pk")})

(* deterministic key generation: coins 1, coins 1 again, coins with one bit changed, other coins; an ordinary key *)
DetBase(be, n) ==
  <<Op("kd", 0, 0, 0, "", 1), Op("kd", 0, 0, 0, "", 1), Op("kd", 0, 0, 0, "", n), B(N0("kp"), be),   \* 1 2 | 3 4 | 5 6 | 7 8
    Op("kd", 0, 0, 0, "", n), Op("msg", 0, 0, 0, "", 4),                                         \* 9 10 | msg 11
    Op("ds", 2, 11, 0, "", be), Op("ds", 6, 11, 0, "", be), Op("ds", 8, 11, 0, "", be), Op("sg", 10, 11, 0, "", be)>>  \* 12 13 14 | 15

(* which bits of the coins to change (n - 2): one of every byte, which one depends on the repetition; or all *)
CoinBits == IF Quick THEN {2 + 8 * i : i \in 0..31} \cup {258} ELSE 2..258

(* ------------------------------------------------------------------------ *)
WSets == {32, 33, 47, 48, 64, 199, 200, 201, 672, 700, 736, 1000}
WbcChoices(H, n, k) ==
  LET ws == n \div 8
      marks == {1, 2, 3, 4, 5, (ws + 1) \div 2, ws - 1, ws} \cap 1..ws
  IN {Op("we", i, 0, 0, "", key) : i \in {Len(H), 1} \ {0}, key \in {1, 2, 3}}
     \cup {Op("wd", i, 0, 0, "", key) : i \in {Len(H), 1} \ {0}, key \in {1, 2, 3}}
     \cup {Op("fl", Len(H), w, 0, "", b) : w \in marks, b \in 0..2}
WbcSweep(H) == <<Op("we", Len(H), 0, 0, "", 1), Op("wd", Len(H), 0, 0, "", 1)>>

(* ------------------------------------------------------------------------ *)
Jobs ==
  CASE JOB = "C19" -> {Job("kem", s, TwoKeysCts, IF Quick THEN 2 ELSE 3, "honest", 1) : s \in KSets}
                      \cup {Job("kem", s, <<N0("kg"), X("pub", 1), X("en", 2), X("en", 2), N0("dir")>>, 0, "simple", 2000) : s \in KSets}
                      \cup {Job("kem", s, Cpa, 0, "simple", 2000) : s \in KSets}
                      \cup {Job("kem", s, Cpa, IF Quick THEN 2 ELSE 3, "cpa", 1) : s \in KSets}
    [] JOB = "C20" -> {Job("kem", s, TwoKeysCts, IF Quick THEN 2 ELSE 3, "alter", 1) : s \in KSets}
                      \cup {Job("kem", s, <<>>, 1, "bad", 1) : s \in KSets}
                      \cup {Job("kem", s, TwoKeysCts, 1, "honest", 1) : s \in KSets}
    [] JOB = "C22" -> {[Job("sig", s, SigBase(b1, mk, ma), d, fam, 1) EXCEPT !.w = 1] @@ [be |-> b2] :
                         s \in SSets, b1 \in 0..2, b2 \in 0..2, mk \in (IF Quick THEN {0, 4, 5} ELSE MsgKinds), ma \in {"flip", "ext"},
                         d \in {IF Quick THEN 1 ELSE 2}, fam \in {"alter"}}
                      \cup {Job("sig", s, SigBase(b1, mk, ma), 0, "msgs", 3) @@ [be |-> b2] :
                         s \in SSets, b1 \in 0..2, b2 \in 0..2, mk \in MsgKinds, ma \in {"flip", "ext", "cut"}}
    [] JOB = "C23" -> {Job("sig", s, DetBase(b1, n), 0, "det", 1) @@ [be |-> b2] : s \in SSets, b1 \in 0..2, b2 \in 0..2, n \in CoinBits}
                      \cup {Job("sig", s, SigBase(b1, 4, "flip"), 1, "short", 3) @@ [be |-> b2] : s \in SSets, b1 \in 0..2, b2 \in 0..2}
                      \cup {Job("sig", s, SigBase(b1, 4, "flip"), IF Quick THEN 1 ELSE 2, "enc", 1) @@ [be |-> b2] : s \in SSets, b1 \in 0..2, b2 \in 0..2}
                      \cup {Job("sig", s, <<>>, 1, "bad", 1) @@ [be |-> 0] : s \in SSets}
                      \cup {Job("sig", s, <<B(N0("kp"), b1), Op("kd", 0, 0, 0, "", 1), Op("kd", 0, 0, 0, "", 1), Op("kd", 0, 0, 0, "", 3)>>, d, "eq", 3) @@ [be |-> 0] :
                              s \in SSets, b1 \in 0..2, d \in {IF Quick THEN 1 ELSE 2}}
    [] JOB = "C18" -> {Job("wbc", ToString(n), <<Op("pt", 0, 0, 0, "", n), Op("we", 1, 0, 0, "", 1)>>, IF Quick THEN 2 ELSE 3, "wbc", 1) : n \in WSets}

Options(J, H, k) ==
  CASE J.p = "kem" -> KemChoices(J.fam, H, J.set, k)
    [] J.p = "sig" -> SigChoices(J.fam, H, J.set, k)
    [] J.p = "wbc" -> WbcChoices(H, H[1].len, k)
Sweep(J, H) ==
  CASE J.p = "kem" -> KemSweep(J.fam, H)
    [] J.p = "sig" -> SigSweep(J.fam, H, J.be)
    [] J.p = "wbc" -> WbcSweep(H)

RECURSIVE Run(_, _, _, _)
Run(p, H, ops, set) == IF ops = <<>> THEN H ELSE Run(p, TLCEval(H \o Step(p, H, Head(ops), set).objs), Tail(ops), set)

VARIABLES J, H, hist, k
vars == <<J, H, hist, k>>
Init == /\ J \in Jobs /\ k = 0 /\ hist = J.base /\ H = Run(J.p, <<>>, J.base, J.set)
Choose == \E op \in Options(J, H, k) :
            /\ k < J.d
            /\ H' = H \o Step(J.p, H, op, J.set).objs
            /\ hist' = Append(hist, op) /\ k' = k + 1 /\ UNCHANGED J
(* everything on the heap is used, one operation at a time *)
Finish == /\ k = J.d
          /\ hist' = hist \o Sweep(J, H)
          /\ H' = Run(J.p, H, Sweep(J, H), J.set)
          /\ k' = J.d + 1 /\ UNCHANGED J
Next == Choose \/ Finish
Spec == Init /\ [][Next]_vars

Complete == k = J.d + 1
Emit == Complete => PrintT(ToJson([p |-> J.p, set |-> J.set, w |-> J.w, ops |-> hist]))

(* the ideal primitives themselves: what C18 to C23 say about them *)
Terms == {H[n].ts[1] : n \in {m \in 1..Len(H) : H[m].ts # <<>>}}
Correct == \* a secret on the heap is never both an encapsulated one and a rejection; blocks in normal form
  \A t \in Terms : CASE t[1] = "E" -> t[3][1] # "D" \/ t[3][2] # t[2]
                     [] t[1] = "D" -> t[3][1] # "E" \/ t[3][2] # t[2]
                     [] t[1] = "f" -> t[3] # {} /\ t[2][1] # "f"
                     [] OTHER -> TRUE
=============================================================================
