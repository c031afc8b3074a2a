------------------------------- MODULE Props -------------------------------
(* What the protocols guarantee, as predicates on what can be seen from the  *)
(* outside.  A view V of a world is a sequence of records                    *)
(*   [P, out, rc, oa, evil, key, id]                                         *)
(* with key = NoKey where a session gave none and id a number.  The same predicates are          *)
(* invariants of the specification (MC.tla, where keys are terms) and are    *)
(* evaluated on every recorded execution (Trace.tla, where they are tokens   *)
(* standing for bytes).                                                      *)
EXTENDS Session

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A j \in DOMAIN a : a[j] = b[j]

(* a received exactly what b sent, and b's messages answered exactly what a sent *)
Matching(a, b) ==
  /\ IsPrefixOf(a.rc, b.out)
  /\ LET k == IF a.rc = <<>> THEN 0 ELSE b.oa[Len(a.rc)]
     IN k <= Len(b.rc) /\ IsPrefixOf(SubSeq(b.rc, 1, k), a.out)

Agreeing(a, b) == IsPrefixOf(a.rc, b.out) /\ IsPrefixOf(b.rc, a.out)

(* May these two ever share a key? *)
Compatible(a, b) ==
  LET P == a.P  R == b.P IN
  /\ P.lay = R.lay /\ P.pt = R.pt /\ P.it = R.it
  /\ P.role # R.role
  /\ P.ssid = R.ssid
  /\ P.lay \in {"pake", "latke", "chip"} => P.pw = R.pw
  /\ P.lay = "ibke" => P.mk = R.cg /\ R.mk = P.cg
  /\ P.lay \in {"ibke", "latke"} => {P.fi, P.fu, R.fi, R.fu} = {0}
  /\ (P.lay = "ibke" /\ P.it # "fg") => P.cu = P.us /\ R.cu = R.us
  /\ P.lay = "latke" =>
       /\ IF P.peer = 0 THEN R.peer = 0
          ELSE P.peer = R.id /\ R.peer = P.id /\ P.id = CertId(P) /\ R.id = CertId(R)
       /\ P.it # "mi" => P.cg = 0 /\ R.cg = 0
       /\ P.it \notin {"mi", "fg"} => P.cu = P.us /\ R.cu = R.us
  /\ P.lay = "chip" => P.peer = R.id /\ R.peer = P.id

(* Equal keys: only the two ends of one unmodified conversation *)
EqOk(a, b) == a.key = b.key => Compatible(a, b) /\ Agreeing(a, b)
EqAll(V) == \A i, j \in DOMAIN V : (i # j /\ V[i].key # NoKey /\ V[j].key # NoKey) => EqOk(V[i], V[j])

(* Does it follow the rules, with a credential issued to it under its own password? *)
Honest(a) ==
  LET P == a.P IN
  P.lay = "latke" => ~ a.evil /\ P.cg = 0 /\ P.cu = P.us /\ P.id = CertId(P) /\ P.fi = 0 /\ P.fu = 0

(* A key at all: only at the end of an unmodified conversation with a compatible peer *)
Confirms(P) == (P.lay = "latke" /\ P.pt # "mp" /\ P.it # "mi") \/ (P.lay = "pake" /\ P.pt = "kc")
KeyOk(V, i) ==
  (V[i].key # NoKey /\ Confirms(V[i].P) /\ Honest(V[i])) =>
    \E j \in DOMAIN V : j # i /\ Compatible(V[i], V[j]) /\ Matching(V[i], V[j])

(* The identity that comes with a key *)
IdOk(V, i) ==
  LET P == V[i].P IN
  (V[i].key # NoKey /\ P.lay = "latke" /\ P.it # "mi" /\ Honest(V[i])) =>
    /\ P.peer # 0 => V[i].id = P.peer
    /\ P.pt # "mp" => \E j \in DOMAIN V : j # i /\ V[i].id = CertId(V[j].P) /\ Compatible(V[i], V[j]) /\ Matching(V[i], V[j])
(* Identity-based key exchange: two ends holding one key name each other *)
IdPair(V) ==
  \A i, j \in DOMAIN V :
    (i # j /\ V[i].key # NoKey /\ V[i].key = V[j].key /\ Honest(V[i]) /\ V[i].P.lay \in {"ibke", "latke"} /\ V[i].P.it # "mi")
      => V[i].id = CertId(V[j].P)
=============================================================================
