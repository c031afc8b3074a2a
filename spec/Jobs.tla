-------------------------------- MODULE Jobs --------------------------------
(* The situations put to the code, per property.  See Gen.tla.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

PTs == {"kc", "ck", "cp"}
ITs == {"fg", "hm", "sd", "se", "sq"}
PTm == PTs \cup {"mp"}
ITm == ITs \cup {"mi"}

Base == [lay |-> "", pt |-> "", it |-> "", role |-> "I", ssid |-> 1, pw |-> 1, mk |-> 1, id |-> 1, peer |-> 0,
         cr |-> 1, cg |-> 1, cu |-> 1, us |-> 1, ci |-> 0, fi |-> 0, fu |-> 0, w |-> 0]

Pk(t, role, ssid, pw) == [Base EXCEPT !.lay = "pake", !.pt = t, !.role = role, !.ssid = ssid, !.pw = pw]
(* user u has certificate number u, key u and identity u *)
Ik(t, role, ssid, u) == [Base EXCEPT !.lay = "ibke", !.it = t, !.role = role, !.ssid = ssid,
                                     !.id = u, !.cr = u, !.cu = u, !.us = u]
Lk(it, pt, role, ssid, pw, u, peer) ==
  [Base EXCEPT !.lay = "latke", !.it = it, !.pt = pt, !.role = role, !.ssid = ssid, !.pw = pw,
               !.id = u, !.cr = u + 10 * pw, !.cu = u, !.us = u, !.cg = 0, !.peer = peer]
Ch(pt, role, ssid, pw, u, peer) ==
  [Base EXCEPT !.lay = "chip", !.pt = pt, !.role = role, !.ssid = ssid, !.pw = pw, !.id = u, !.cr = u + 10 * pw, !.peer = peer]

Job(ps, cv, ord, k, dv, x) ==
  [ps |-> ps, cv |-> cv, ord |-> ord, k |-> k, dv |-> dv, tgt |-> 1..Len(cv), x |-> x, ml |-> <<32, 32, 32>>, thr |-> 0, n |-> 0]
One == << <<1, 2>> >>
Two == << <<1, 2>>, <<3, 4>> >>
Anyone(ps, n, k, dv, x) == [Job(ps, One, "free", k, dv, x) EXCEPT !.n = n]

(* one side altered its certificate: it was issued for another identity, or for another key *)
Altered(it, I, R) ==
  { <<[I EXCEPT !.fi = 3, !.cr = 96], R>>, <<I, [R EXCEPT !.fi = 3, !.cr = 96]>>,
    <<[I EXCEPT !.fi = 2, !.cr = 96], R>>, <<I, [R EXCEPT !.fi = 1, !.cr = 96]>> }
  \cup (IF it = "fg" THEN {} ELSE
  { <<[I EXCEPT !.fu = 5, !.cr = 96], R>>, <<I, [R EXCEPT !.fu = 5, !.cr = 96]>>,
    <<[I EXCEPT !.fu = 2, !.cr = 96], R>>, <<I, [R EXCEPT !.fu = 1, !.cr = 96]>> })

(* one side has no certificate for the identity it claims (fg), or not the key in it (hm), and tries one of several ways
   of choosing its numbers that would do if the exchange bound them together less than it does *)
Rogue(it, I, R) ==
  CASE it = "fg" -> UNION { {<<[I EXCEPT !.fi = 9, !.cr = 95, !.w = w], R>>, <<I, [R EXCEPT !.fi = 9, !.cr = 95, !.w = w]>>} : w \in 1..3 }
    [] it = "hm" -> UNION { {<<[I EXCEPT !.us = 9, !.cr = 95, !.w = w, !.peer = IF I.lay = "latke" THEN 0 ELSE 2], R>>,
                             <<I, [R EXCEPT !.us = 9, !.cr = 95, !.w = w]>>} : w \in 1..5 }
    [] OTHER -> {}

Sw(ps) == <<ps[2], ps[1]>>      \* nothing depends on which session is made first
Lens == {<<1, 1, 1>>, <<15, 16, 17>>, <<31, 33, 64>>, <<63, 65, 128>>, <<127, 129, 255>>, <<256, 257, 1000>>,
         <<2, 3, 4>>, <<1000, 4096, 5000>>, <<135, 136, 137>>, <<167, 168, 169>>, <<12, 44, 45>>, <<271, 272, 273>>, <<65536, 65535, 70000>>}
(* and the lengths around numbers that the checked tree has and the pinned one has not *)
Around(d) == IF d > 1 THEN {<<d - 1, d, d + 1>>, <<d, 2 * d, 2 * d + 1>>} ELSE {}
DictLens == Around(atoi(IOEnv.DL1)) \cup Around(atoi(IOEnv.DL2)) \cup Around(atoi(IOEnv.DL3))

Net  == {"flip", "trunc", "ext", "empty", "rand", "swap", "spl", "dup", "drop", "extra", "part"}
Ins  == {"eflip", "etrunc", "espl", "ecert"}

---------------------------------------------------------------------------
(* LATKE *)
LPair(it, pt, ssid, pw, a, b, pre) ==
  <<Lk(it, pt, "I", ssid, pw, a, IF pre THEN b ELSE 0), Lk(it, pt, "R", ssid, pw, b, IF pre THEN a ELSE 0)>>
Combos == ITm \X PTm
Real   == ITs \X PTs

HonestLatke(x) ==
  UNION {
    LET L(ssid, pw, a, b, pre) == LPair(c[1], c[2], ssid, pw, a, b, pre)
        H(ps, cv, ord) == Job(ps, cv, ord, 0, {}, x)
    IN { H(L(1, 1, 1, 2, FALSE), One, "seq"), H(L(1, 1, 2, 1, FALSE), One, "seq"),
         H(L(1, 1, 1, 1, FALSE), One, "seq"),                                      \* one password file, both ends
         H(<<L(1, 1, 1, 2, FALSE)[1], [L(1, 1, 1, 2, FALSE)[2] EXCEPT !.id = 1]>>, One, "seq"),   \* equal identities
         H(L(1, 1, 1, 2, FALSE) \o L(1, 1, 1, 2, FALSE), Two, "lock"),
         H(L(1, 1, 1, 2, FALSE) \o L(1, 1, 2, 1, FALSE), Two, "seq"),
         H(L(1, 1, 1, 2, FALSE) \o L(2, 2, 1, 2, FALSE), Two, "lock"),
         [H(L(1, 1, 1, 2, FALSE), One, "seq") EXCEPT !.thr = 1] }
       \cup (IF c[1] = "mi" THEN {} ELSE
       { H(L(1, 1, 1, 2, TRUE), One, "seq"), H(L(1, 1, 1, 1, TRUE), One, "seq"),
         H(L(1, 1, 2, 1, TRUE) \o L(1, 1, 1, 3, TRUE), Two, "lock"),
         H(L(1, 1, 1, 2, TRUE) \o L(1, 1, 1, 2, FALSE), Two, "lock") })
    : c \in Combos }

WrongPwLatke(x) ==
  UNION {
    { Job(<<Lk(c[1], c[2], "I", 1, p, 1, IF pre THEN 2 ELSE 0), Lk(c[1], c[2], "R", 1, 3 - p, 2, IF pre THEN 1 ELSE 0)>>,
          One, "seq", 0, {}, x) : p \in {1, 2}, pre \in BOOLEAN }
    \cup {Job(<<Lk(c[1], c[2], "I", 1, 1, 1, 0), [Lk(c[1], c[2], "R", 1, 2, 1, 0) EXCEPT !.id = 1]>>, One, "seq", 0, {}, x)}
    : c \in Combos }
(* one password, files made for all sorts of identities *)
SamePwLatke(x) == UNION {
    { Job(LPair(c[1], c[2], 1, 1, a, b, c[1] # "mi" /\ a = 1), One, "seq", 0, {}, x) : a \in {1, 3, 5}, b \in {2, 4, 6} }
    : c \in Combos }
(* same-password conversations next to it, whose messages may be substituted; and files made at different times *)
WrongPwSwap(x) ==
  { Job(<<Lk(c[1], c[2], "I", 1, 1, 1, 0), Lk(c[1], c[2], "R", 1, 2, 2, 0),
          Lk(c[1], c[2], "I", 1, 1, 3, 0), Lk(c[1], c[2], "R", 1, 1, 2, 0)>>, Two, o, 1, {"swap"}, x)
    : c \in Combos, o \in {"lock"} }


(* Sessions that do not fit together *)
MisfitLatke(x) ==
  UNION {
    LET it == c[1]  pt == c[2]
        H(a, b) == Job(<<a, b>>, One, "seq", 0, {}, x)
        I(u, peer) == Lk(it, pt, "I", 1, 1, u, peer)
        R(u, peer) == Lk(it, pt, "R", 1, 1, u, peer)
    IN { H(I(1, 0), [R(2, 0) EXCEPT !.ssid = 2]), H([I(1, 0) EXCEPT !.ssid = 3], R(2, 0)),
         H(I(1, 2), [R(2, 1) EXCEPT !.ssid = 2]),
         H(I(1, 0), I(2, 0)), H(I(1, 0), I(1, 0)), H(I(1, 2), I(2, 1)),       \* two initiators
         (* calls itself 2, holds a certificate for 3 *)
         H(I(1, 2), [R(2, 1) EXCEPT !.ci = 3, !.cr = 99]), H([I(2, 1) EXCEPT !.ci = 3, !.cr = 99], R(1, 2)),
         H(I(1, 0), [R(2, 0) EXCEPT !.ci = 3, !.cr = 99]),
         H([I(2, 1) EXCEPT !.ci = 1, !.cr = 99], R(1, 2)) }
    : c \in IF x = 0 THEN {} ELSE ITs \X PTm }
(* every peer model and named peer, for different identities and for equal ones, which may be in the same file *)
ModelLatke(C, x) ==
  UNION {
    LET R(k, b) == IF k = 3 THEN [Lk(c[1], c[2], "R", 1, 1, 2, b) EXCEPT !.id = 1] ELSE Lk(c[1], c[2], "R", 1, 1, k, b) IN
    { Job(<<Lk(c[1], c[2], "I", 1, 1, 1, a), R(k, b)>>, One, "seq", 0, {}, x) : a \in 0..3, b \in 0..3, k \in 1..3 }
    : c \in C }
(* two responders, the messages of one initiator going to both, and of one to the other *)
TwoResponders(x, C) ==
  { Job(<<Lk(c[1], c[2], "I", 1, 1, 1, 0), Lk(c[1], c[2], "R", 1, 1, 2, 0), Lk(c[1], c[2], "R", 1, 1, 3, 0)>>,
        << <<1, 2>>, <<1, 3>> >>, o, 1, {"swap"}, x) : c \in C, o \in {"seq", "lock"} }
---------------------------------------------------------------------------
(* An active network against LATKE *)
NetLatke(C, x, k, dv) ==
  { [Job(LPair(c[1], c[2], 1, 1, 1, 2, FALSE) \o LPair(c[1], c[2], 1, 1, 1, 2, FALSE), Two, o, k, dv, x) EXCEPT !.tgt = {2}]
    : c \in C, o \in {"seq", "lock"} }
  \cup { [Job(LPair(c[1], c[2], 1, 1, 1, 2, FALSE) \o LPair(c[1], c[2], 1, 1, 2, 1, FALSE), Two, "lock", k, dv \cap {"swap", "extra"}, x)
          EXCEPT !.tgt = {1}] : c \in C }
NetLatke1(C, x, k, dv) == { Job(LPair(c[1], c[2], 1, 1, 1, 2, pre), One, "seq", k, dv, x) : c \in C, pre \in {FALSE} }

---------------------------------------------------------------------------
(* Insiders *)
Insider(C, x) ==
  UNION {
    LET it == c[1]  pt == c[2]
        I == Lk(it, pt, "I", 1, 1, 1, 0)  R == Lk(it, pt, "R", 1, 1, 2, 0)
        A == LPair(it, pt, 1, 1, 3, 4, FALSE)       \* somebody else's conversation, before or at the same time
        V == <<Lk(it, pt, "I", 1, 1, 3, 0), Lk(it, pt, "R", 1, 1, 2, 0)>>
    IN { Job(<<I, R>>, One, "seq", 1, {"eflip", "etrunc"}, x),
         [Job(A \o <<I, R>>, Two, "seq", 1, {"espl", "ecert"}, x) EXCEPT !.tgt = {2}],
         [Job(A \o <<I, R>>, Two, "lock", 1, {"espl", "ecert"}, x) EXCEPT !.tgt = {2}] }
       \cup {Job(ps, One, "seq", 0, {}, 20 * x) :
               ps \in { <<[I EXCEPT !.cg = 7], R>>, <<I, [R EXCEPT !.cg = 7]>>,
                        <<[I EXCEPT !.cg = 7], [R EXCEPT !.cg = 7]>>,
                        <<[I EXCEPT !.cu = 5, !.cr = 98], R>>, <<I, [R EXCEPT !.cu = 5, !.cr = 98]>>,
                        <<[I EXCEPT !.us = 5, !.cr = 98], R>>, <<I, [R EXCEPT !.us = 5, !.cr = 98]>>,
                        <<[I EXCEPT !.us = 2, !.cr = 98], R>>, <<I, [R EXCEPT !.us = 1, !.cr = 98]>>,
                        <<[I EXCEPT !.peer = 2], [R EXCEPT !.peer = 1, !.ci = 3, !.cr = 97]>>,
                        <<[I EXCEPT !.peer = 2, !.ci = 3, !.cr = 97], [R EXCEPT !.peer = 1]>>,
                        <<[I EXCEPT !.ci = 3, !.cr = 97], R>>, <<I, [R EXCEPT !.ci = 1, !.cr = 97]>> }
                     \cup Altered(it, I, R) \cup Rogue(it, I, R) }
    : c \in C }

---------------------------------------------------------------------------
(* Identity-based key exchanges by themselves *)
IPair(it, ssid, a, b) == <<Ik(it, "I", ssid, a), Ik(it, "R", ssid, b)>>
HonestIbke(x) ==
  UNION {
    { Job(IPair(it, 1, 1, 2), One, "seq", 0, {}, x), Job(IPair(it, 1, 2, 1), One, "seq", 0, {}, x),
      Job(IPair(it, 2, 1, 1), One, "seq", 0, {}, x),
      Job(<<Ik(it, "I", 1, 1), [Ik(it, "R", 1, 2) EXCEPT !.id = 1]>>, One, "seq", 0, {}, x),
      Job(Sw(IPair(it, 1, 1, 2)), << <<2, 1>> >>, "seq", 0, {}, x),
      [Job(IPair(it, 1, 1, 2), One, "seq", 0, {}, x) EXCEPT !.thr = 1],
      Job(IPair(it, 1, 1, 2) \o IPair(it, 1, 1, 2), Two, "seq", 0, {}, x),
      Job(IPair(it, 1, 1, 2) \o IPair(it, 1, 1, 3), Two, "lock", 0, {}, x),
      Job(IPair(it, 1, 1, 2) \o IPair(it, 2, 2, 1), Two, "free", 0, {}, x \div 10 + 1),
      Job(IPair(it, 1, 1, 2) \o IPair(it, 1, 1, 2), Two, "free", 0, {}, x \div 10 + 1),
      Job([p \in 1..4 |-> [(IPair(it, 1, 1, 2) \o IPair(it, 1, 3, 4))[p] EXCEPT !.mk = 1 + (p - 1) \div 2, !.cg = 1 + (p - 1) \div 2]],
          Two, "lock", 0, {}, x),
      Job(IPair(it, 1, 1, 2) \o IPair(it, 2, 1, 2) \o IPair(it, 3, 1, 2), << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, "lock", 0, {}, x) }
    : it \in ITs }
(* certificates that do not fit *)
CertIbke(x) ==
  UNION {
    LET I == Ik(it, "I", 1, 1)  R == Ik(it, "R", 1, 2) IN
    {Job(ps, One, "seq", 0, {}, x) : ps \in
      { <<[I EXCEPT !.cg = 2], R>>, <<I, [R EXCEPT !.cg = 2]>>, <<[I EXCEPT !.cg = 2], [R EXCEPT !.cg = 2]>>,
        <<[I EXCEPT !.mk = 2], R>>, <<I, [R EXCEPT !.mk = 2]>>,
        <<[I EXCEPT !.mk = 2, !.cg = 2], R>>, <<I, [R EXCEPT !.mk = 2, !.cg = 2]>>,
        <<[I EXCEPT !.mk = 2, !.cg = 2], [R EXCEPT !.mk = 3, !.cg = 3]>>,
        <<[I EXCEPT !.mk = 2], [R EXCEPT !.cg = 2]>>, <<[I EXCEPT !.cg = 2], [R EXCEPT !.mk = 2]>>,
        <<[I EXCEPT !.us = 3], R>>, <<I, [R EXCEPT !.us = 3]>>, <<[I EXCEPT !.us = 2], R>>, <<I, [R EXCEPT !.us = 1]>>,
        <<[I EXCEPT !.cu = 3], R>>, <<I, [R EXCEPT !.cu = 3]>>, <<[I EXCEPT !.cu = 3, !.us = 3], R>>,
        <<[I EXCEPT !.us = 2], [R EXCEPT !.us = 1]>> } \cup Altered(it, I, R) \cup Rogue(it, I, R) }
    : it \in ITs }
NetIbke(IT, x, k, dv) ==
  UNION { { [Job(IPair(it, 1, 1, 2) \o IPair(it, 1, 1, 2), Two, o, k, dv, x) EXCEPT !.tgt = {2}] : o \in {"seq", "lock"} }
          \cup { [Job(IPair(it, 1, 1, 2) \o q, Two, "lock", k, dv \cap {"swap", "spl", "extra"}, x) EXCEPT !.tgt = {1}]
                 : q \in {IPair(it, 1, 2, 1), IPair(it, 2, 1, 2), IPair(it, 1, 3, 2), IPair(it, 1, 1, 3),
                          [p \in 1..2 |-> [IPair(it, 1, 1, 2)[p] EXCEPT !.mk = 2, !.cg = 2, !.cr = 50 + p]]} }
          : it \in IT }
(* user 3 got a certificate for a key that is user 1's, or user 2's: the network passes certificates around *)
SharedKey(x) == UNION {
    { [Job(IPair(it, 1, 1, 2) \o <<[Ik(it, r, 1, 3) EXCEPT !.cu = u, !.us = u], Ik(it, IF r = "I" THEN "R" ELSE "I", 1, 4)>>,
           << <<1, 2>>, IF r = "I" THEN <<3, 4>> ELSE <<4, 3>> >>, "lock", 2, {"ncert"}, x) EXCEPT !.tgt = {1}]
      : u \in {1, 2}, r \in {"I", "R"} }
    : it \in {"fg", "hm", "sd"} }
SsidIbke(x) == UNION {
    { Job(<<Ik(it, "I", a, 1), Ik(it, "R", b, 2)>>, One, "seq", 0, {}, x) : a \in {1, 2}, b \in {2, 3} }
    \cup { Job(<<Ik(it, r, 1, 1), Ik(it, r, 1, 2)>>, One, "seq", 0, {}, x) : r \in {"I"} }
    : it \in ITs }
AnyIbke(IT, x, n) == UNION { {Anyone(<<Ik(it, "I", 1, 1), Ik(it, "R", 1, 2)>>, n, 1, {}, x),
                              Anyone(<<Ik(it, "I", 1, 1), Ik(it, "R", 1, 2), Ik(it, "R", 1, 2)>>, n - 1, 0, {}, x),
                              Anyone(<<Ik(it, "I", 1, 1), Ik(it, "R", 1, 2), Ik(it, "I", 1, 1)>>, n - 1, 0, {}, x),
                              Anyone(<<Ik(it, "R", 1, 1), Ik(it, "R", 1, 2), Ik(it, "I", 1, 1)>>, n - 1, 0, {}, x)} : it \in IT }
SimIbke(x) == UNION {
    { Job(IPair(it, 1, a, 2), One, "seq", k, {"sim"}, x) : a \in {1, 2}, k \in {1, 2, 4} }
    \cup { Anyone(<<Ik(it, "I", 1, 1), Ik(it, "R", 1, 2)>>, n, 1, {"simall"}, x) : n \in 3..6 }
    : it \in ITs }

---------------------------------------------------------------------------
(* PAKEs by themselves *)
PPair(t, ssid, pw) == <<Pk(t, "I", ssid, pw), Pk(t, "R", ssid, pw)>>
HonestPake(x) == UNION {
    { Job(PPair(t, 1, 1), One, "seq", 0, {}, x), Job(PPair(t, 2, 3), One, "seq", 0, {}, x),
      Job(Sw(PPair(t, 1, 1)), << <<2, 1>> >>, "seq", 0, {}, x),
      [Job(PPair(t, 1, 1), One, "seq", 0, {}, x) EXCEPT !.thr = 1],
      Job(PPair(t, 1, 1) \o PPair(t, 1, 1), Two, "free", 0, {}, x),
      Job(PPair(t, 1, 1) \o PPair(t, 2, 1), Two, "lock", 0, {}, x),
      Job(PPair(t, 1, 1) \o PPair(t, 1, 2), Two, "lock", 0, {}, x),
      Job(PPair(t, 1, 1) \o PPair(t, 1, 1) \o PPair(t, 1, 1), << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, "lock", 0, {}, x) }
    : t \in PTs }
MisfitPake(x) == UNION {
    { Job(<<Pk(t, "I", a, b), Pk(t, "R", c, d)>>, One, "seq", 0, {}, x) : a \in {1, 2}, b \in {1, 2}, c \in {1, 3}, d \in {1, 2, 3, 4} }
    \cup { Job(<<Pk(t, "I", 1, b), Pk(t, "I", 1, 1)>>, One, "seq", 0, {}, x) : b \in {1, 2} }
    : t \in PTs }
NetPake(T, x, k, dv) == UNION {
    { [Job(PPair(t, 1, 1) \o q, Two, o, k, dv, x) EXCEPT !.tgt = {1}]
      : q \in {PPair(t, 1, 1), PPair(t, 2, 1), PPair(t, 1, 2)}, o \in {"lock"} }
    \cup { [Job(PPair(t, 1, 1) \o PPair(t, 1, 1), Two, "seq", k, dv, x) EXCEPT !.tgt = {2}] }
    \cup { Job(<<Pk(t, "I", a, b), Pk(t, "R", 1, 1)>>, One, "seq", k, dv, x) : a \in {1, 2}, b \in {1, 2} }
    : t \in T }
AnyPake(T, x, n) == UNION {
    { Anyone(<<Pk(t, "I", 1, 1), Pk(t, "R", 1, b)>>, n, 2, {}, x) : b \in {1, 2} }
    \cup { Anyone(<<Pk(t, "I", 1, 1), Pk(t, "R", 1, 1), Pk(t, r, 1, 1)>>, n - 1, 0, {}, x) : r \in {"I", "R"} }
    \cup { Anyone(<<Pk(t, "R", 1, 1), Pk(t, "R", 1, 1), Pk(t, "I", 1, 1)>>, n - 1, 0, {}, x),
           Anyone(<<Pk(t, "I", 1, 1), Pk(t, "I", 1, 1)>>, n, 1, {}, x) }
    : t \in T }
(* a responder that is offered, after a genuine or wrong first contribution, those of other sessions *)
GuessPake(T, x) == UNION {
    { [Job(<<Pk(t, "I", 1, 2), Pk(t, "R", 1, 1), Pk(t, "I", 1, 1), Pk(t, "R", 1, 1)>>, Two, o, 2, {"swap", "dup", "extra"}, x)
       EXCEPT !.tgt = {1}] : o \in {"lock", "seq"} }
    \cup { [Job(<<Pk(t, "I", 1, 1), Pk(t, "R", 1, 2), Pk(t, "I", 1, 1), Pk(t, "R", 1, 1)>>, Two, o, 2, {"swap", "dup", "extra"}, x)
       EXCEPT !.tgt = {1}] : o \in {"lock"} }
    : t \in T }

---------------------------------------------------------------------------
(* CHIP *)
CPair(t, ssid, pw, a, b) == <<Ch(t, "I", ssid, pw, a, b), Ch(t, "R", ssid, pw, b, a)>>
HonestChip(x) == UNION {
    { Job(CPair(t, 1, 1, 1, 2), One, "seq", 0, {}, x), Job(CPair(t, 2, 2, 2, 1), One, "seq", 0, {}, x),
      Job(CPair(t, 1, 1, 1, 1), One, "seq", 0, {}, x),
      Job(CPair(t, 1, 1, 1, 2) \o CPair(t, 1, 1, 1, 2), Two, "lock", 0, {}, x),
      Job(CPair(t, 1, 1, 1, 2) \o CPair(t, 2, 1, 2, 1), Two, "free", 0, {}, x \div 10 + 1),
      Job(CPair(t, 1, 1, 1, 2) \o CPair(t, 1, 1, 1, 3), Two, "seq", 0, {}, x),
      [Job(CPair(t, 1, 1, 1, 2), One, "seq", 0, {}, x) EXCEPT !.thr = 1] }
    : t \in PTs }
MisfitChip(x) == UNION {
    LET I == Ch(t, "I", 1, 1, 1, 2)  R == Ch(t, "R", 1, 1, 2, 1) IN
    {Job(ps, One, "seq", 0, {}, x) : ps \in
       { <<I, [R EXCEPT !.ssid = 2]>>, <<[I EXCEPT !.ssid = 2], R>>,
         <<I, Ch(t, "R", 1, 2, 2, 1)>>, <<Ch(t, "I", 1, 2, 1, 2), R>>,
         <<[I EXCEPT !.peer = 3], R>>, <<I, [R EXCEPT !.peer = 3]>>, <<[I EXCEPT !.peer = 3], [R EXCEPT !.peer = 3]>>,
         <<[I EXCEPT !.peer = 1], R>>, <<[I EXCEPT !.peer = 1], [R EXCEPT !.peer = 2]>>, <<I, Ch(t, "R", 1, 1, 3, 1)>>,
         (* no file for the identity it claims, only somebody's of the same password *)
         <<[I EXCEPT !.id = 9, !.ci = 1, !.w = 1], R>>, <<I, [R EXCEPT !.id = 9, !.ci = 2, !.w = 1]>>,
         <<[I EXCEPT !.id = 9, !.ci = 1, !.w = 2], R>>, <<I, [R EXCEPT !.id = 9, !.ci = 2, !.w = 2]>>,
         <<I, Ch(t, "I", 1, 1, 2, 1)>>, <<I, I>>, <<Ch(t, "I", 1, 1, 1, 1), Ch(t, "I", 1, 1, 1, 1)>> }}
    : t \in PTs }
NetChip(T, x, k, dv) == UNION {
    { [Job(CPair(t, 1, 1, 1, 2) \o q, Two, "lock", k, dv, x) EXCEPT !.tgt = {1}]
      : q \in {CPair(t, 1, 1, 1, 2), CPair(t, 2, 1, 1, 2), CPair(t, 1, 2, 1, 2), CPair(t, 1, 1, 2, 1), CPair(t, 1, 1, 1, 3)} }
    \cup { [Job(CPair(t, 1, 1, 1, 2) \o CPair(t, 1, 1, 1, 2), Two, "seq", k, dv, x) EXCEPT !.tgt = {2}] }
    : t \in T }

---------------------------------------------------------------------------
(* Encrypted channel: the mock key exchange with messages of chosen lengths *)
Channel(x, k, dv) ==
  { [Job(LPair("mi", "mp", 1, 1, 1, 2, FALSE), One, "seq", k, dv, x) EXCEPT !.ml = m] : m \in Lens }
Channel2(x, k, dv, ms) ==
  { [Job(LPair("mi", pt, 1, 1, 1, 2, FALSE) \o LPair("mi", pt, q, 1, 1, 2, FALSE), Two, o, k, dv, x) EXCEPT !.ml = m, !.tgt = {2}]
    : m \in ms, pt \in {"mp"}, o \in {"seq", "lock"}, q \in {1, 2} }

---------------------------------------------------------------------------
(* Many conversations at once; some are attacked or given up, the others must not notice *)
Crowd(C, x, dv) ==
  { [Job(LPair(c[1], c[2], 1, 1, 1, 2, FALSE) \o LPair(c[1], c[2], 1, 1, 1, 2, FALSE) \o LPair(c[1], c[2], 1, 1, 2, 1, FALSE),
         << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, "lock", IF dv = {} THEN 0 ELSE 1, dv, x) EXCEPT !.tgt = {1}, !.thr = th] : c \in C, th \in {0, 1} }
CrowdIbke(x, dv) == UNION {
  { [Job(IPair(it, 1, 1, 2) \o IPair(it, 1, 1, 2) \o IPair(it, 1, 1, 2), << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, "lock",
         IF dv = {} THEN 0 ELSE 1, dv, x) EXCEPT !.tgt = {1}] } : it \in ITs }
CrowdPake(x, dv) == UNION {
  { [Job(PPair(t, 1, 1) \o PPair(t, 1, 1) \o PPair(t, 1, 1), << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, "lock",
         IF dv = {} THEN 0 ELSE 1, dv, x) EXCEPT !.tgt = {1}] } : t \in PTs }
CrowdChip(x, dv) == UNION {
  { [Job(CPair(t, 1, 1, 1, 2) \o CPair(t, 1, 1, 1, 2) \o CPair(t, 1, 1, 1, 2), << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, "lock",
         IF dv = {} THEN 0 ELSE 1, dv, x) EXCEPT !.tgt = {1}] } : t \in PTs }

---------------------------------------------------------------------------
Env == IOEnv.JOB
Quick == IOEnv.TIER # "thorough"
Many == 1000000
Diag == {<<"fg", "kc">>, <<"hm", "ck">>, <<"sd", "cp">>, <<"se", "kc">>, <<"sq", "ck">>, <<"sd", "ck">>, <<"fg", "cp">>}
Tamper == {"flip", "trunc", "ext", "empty", "rand", "swap", "part"}

JobSet ==
  CASE Env = "C01" -> HonestLatke(Many)
    [] Env = "C02" -> WrongPwLatke(Many) \cup SamePwLatke(Many) \cup WrongPwSwap(2)
    [] Env = "C03" -> MisfitLatke(Many) \cup ModelLatke(ITs \X PTm, Many) \cup TwoResponders(2, Real)
    [] Env = "C04" -> NetLatke(ITs \X PTm, 30, 1, Net)
    [] Env = "C05" -> Insider(ITs \X PTm, 20)
    [] Env = "C06" -> NetLatke1(Combos, Many, 1, Tamper \cup {"extra"}) \cup WrongPwLatke(Many) \cup Channel(Many, 1, Tamper)
    [] Env = "C07" -> HonestLatke(Many) \cup NetLatke(ITm \X {"mp"}, 5, 1, {"swap"}) \cup Channel2(5, 1, {"swap", "dup"}, Lens \cup DictLens)
                      \cup Channel(Many, 0, {})
    [] Env = "C08" -> HonestIbke(Many)
    [] Env = "C09" -> CertIbke(Many) \cup SharedKey(10) \cup NetIbke(ITs, 5, 1, {"spl", "flip"})
    [] Env = "C10" -> NetIbke(ITs, 40, 1, Net) \cup SharedKey(20) \cup SsidIbke(Many) \cup AnyIbke(ITs, 1, 6)
    [] Env = "C11" -> SimIbke(Many) \cup WrongPwLatke(20)
    [] Env = "C12" -> HonestPake(Many) \cup MisfitPake(Many) \cup NetPake(PTs, 40, 1, Net)
    [] Env = "C13" -> NetPake({"kc"}, 40, 2, Net \ {"drop"}) \cup GuessPake({"kc"}, 10) \cup MisfitPake(Many) \cup AnyPake({"kc"}, 1, 6)
    [] Env = "C14" -> AnyPake(PTs, 2, 6) \cup AnyIbke(ITs, 2, 6) \cup NetIbke(ITs, 2, 1, Net) \cup NetLatke1(Combos, 2, 1, Net)
                      \cup NetChip(PTs, 2, 1, {"swap", "extra"})
    [] Env = "C15" -> Crowd(Real, 20, {}) \cup Crowd(Real, 5, {"drop"}) \cup CrowdIbke(Many, {"drop"}) \cup CrowdPake(Many, {"drop"}) \cup CrowdChip(Many, {"drop"}) \cup Crowd(Diag, 3, {"flip", "drop", "swap", "rand"})
                      \cup CrowdIbke(Many, {}) \cup CrowdIbke(3, {"flip", "drop", "swap", "rand"})
                      \cup CrowdPake(Many, {}) \cup CrowdPake(3, {"flip", "drop", "swap", "rand"})
                      \cup CrowdChip(Many, {}) \cup CrowdChip(3, {"flip", "drop", "swap", "rand"})
    [] Env = "C16" -> HonestChip(Many) \cup MisfitChip(Many) \cup NetChip(PTs, 20, 1, Net)
    [] Env = "C18" -> NetPake({"ck"}, 60, 1, {"flip", "swap", "dup", "rand"})
                      \cup {j \in HonestPake(Many) \cup MisfitPake(Many) : j.ps[1].pt = "ck"}
    [] Env = "C17" -> Channel(Many, 1, Tamper \cup {"extra"}) \cup Channel2(20, 1, {"swap", "part"}, {<<32, 32, 32>>, <<1, 1, 1>>, <<64, 200, 64>>} \cup DictLens)
                      \cup NetIbke({"se", "sq"}, 20, 1, {"flip", "trunc", "ext", "rand", "part", "swap"})
=============================================================================
