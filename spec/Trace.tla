------------------------------- MODULE Trace -------------------------------
(* Checks recorded executions against the specification.                     *)
(* Line 1 of the file: header. Every other line: one execution, an           *)
(* independent behaviour: acts (what was done) and obs (what was seen).      *)
(*                                                                           *)
(* Byte strings appear as tokens: numbers by order of first appearance in    *)
(* the execution, -1 for one already seen in another execution.              *)
EXTENDS Props, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Lines[1]
Items == 2 .. Len(Lines)

VARIABLES i,    \* line
          l,    \* events consumed
          W,    \* world
          km,   \* pairs <<key term, token>>
          mx,   \* tokens seen
          free, \* the execution left the specification: only the properties themselves are still evaluated
          kt    \* per session: key token and identity last seen
vars == <<i, l, W, km, mx, free, kt>>

NPakeOut(pt, role) == IF pt = "kc" /\ role = "I" THEN 2 ELSE 1

(* The length of output n of session s in an honest run *)
LenKey(P) == P.lay \o "/" \o P.pt \o "/" \o P.it
ExpLen(it, P, n) ==
  LET t == Hdr.lens[LenKey(P)][P.role] IN
  IF n > Len(t) THEN 0 - 2
  ELSE IF P.it = "mi" /\ P.lay = "latke" /\ n > NPakeOut(P.pt, P.role)
  THEN LET k == (IF P.role = "I" THEN 1 ELSE 2) + 2 * (n - NPakeOut(P.pt, P.role) - 1)
       IN t[n] - 32 + it.ml[k]
  ELSE t[n]

Rep(item, ev, cls, info) == PrintT(<<"MISMATCH", item, ev, cls, info>>)
Check(item, ev, cls, cond, info) == IF cond THEN TRUE ELSE Rep(item, ev, cls, info)
Unless(cond, x) == IF cond THEN TRUE ELSE x

MaxTok(m, q) == LET S == {m} \cup Range(q) IN CHOOSE x \in S : \A y \in S : y <= x

IdNum(t) == IF t[1] = "id" THEN t[2] ELSE 0 - 1

(* what every observation must satisfy, whatever happened before *)
Common(ix, e, ob) ==
  /\ Check(ix, e, "leak", ~ ob.leak, "inner content visible on the wire")
  /\ Check(ix, e, "mask", ~ ob.again, "a stretch of keystream used twice")
  /\ Check(ix, e, "stable", ob.stable, "asking twice gives two results")

ToksOk(m, q) == \A j \in DOMAIN q : q[j] = m + j
Fresh(ix, e, m, ob) ==
  /\ Check(ix, e, "fresh", ToksOk(m, ob.ft), <<"message or field not new", ob.ft>>)
  /\ Check(ix, e, "mask", ToksOk(MaxTok(m, ob.ft), ob.ks), <<"keystream not new", ob.ks>>)

(* the key the session reports, against the specification *)
KeyCheck(ix, e, m, kmap, S, ob) ==
  LET f == FinOf(S)
      known == {p \in kmap : p[1] = f.k}
      toks  == {p[2] : p \in kmap} IN
  IF f.c = "rej" THEN Check(ix, e, "key+", ob.key = 0, "a key where there must be none")
  ELSE IF f.c = "any" THEN TRUE
  ELSE /\ Check(ix, e, "key-", ob.key # 0, "no key where there must be one")
       /\ Unless(ob.key = 0,
            /\ IF known # {}
               THEN Check(ix, e, "eq-", \A p \in known : p[2] = ob.key, "keys differ that must be equal")
               ELSE /\ Check(ix, e, "eq+", ob.key \notin toks, "keys equal that must differ")
                    /\ Check(ix, e, "keynew", ob.key \in toks \/ ob.key = m + 1 \/ \E x \in Range(kt) : x[1] = ob.key, "key equals another value")
            /\ Unless(S.P.lay \notin {"ibke", "latke"},
                 Check(ix, e, "id", ob.id = IdNum(f.id), <<"identity reported", ob.id, "expected", f.id>>)))
NewKm(kmap, S, ob) ==
  LET f == FinOf(S) IN
  IF f.c = "key" /\ ob.key # 0 /\ ~ \E p \in kmap : p[1] = f.k THEN kmap \cup {<<f.k, ob.key>>} ELSE kmap

DoneCheck(ix, e, S, ob) ==
  LET d == DoneOf(S) IN Check(ix, e, "done", d = "na" \/ ob.done = d, <<"completion reported", ob.done, "expected", d>>)

ModeExp(S, S2) ==       \* S before, S2 after
  IF S.P.lay # "latke" \/ ~ S2.st.on \/ S.st.taint \/ S2.st.taint THEN "na"
  ELSE IF S2.st.gen = S.st.gen THEN "na"
  ELSE IF S2.st.real THEN "real" ELSE "sim"

(* the properties on what was seen *)
View(w, k) == [s \in DOMAIN w |-> [P |-> w[s].P, out |-> w[s].out, rc |-> w[s].rc, oa |-> w[s].oa, evil |-> w[s].evil,
                                   key |-> IF k[s][1] = 0 \/ (w[s].P.lay = "ibke" /\ w[s].st.sim) THEN NoKey ELSE <<"tok", k[s][1]>>,
                                   id |-> k[s][2]]]
Monitor(ix, e, w, k, s) ==
  LET V == View(w, k) IN
  Unless(V[s].key = NoKey \/ k[s] = kt[s],
    /\ Check(ix, e, "meq", EqAll(V), "equal keys without a matching conversation")
    /\ Check(ix, e, "mkey", KeyOk(V, s), "a key without a matching conversation")
    /\ Check(ix, e, "mid", IdOk(V, s) /\ IdPair(V), <<"key with identity", V[s].id>>))

---------------------------------------------------------------------------
Init ==
  /\ i \in Items /\ l = 0
  /\ W = <<>> /\ km = {} /\ mx = 0 /\ free = FALSE /\ kt = <<>>

Ev  == Lines[i].acts[l + 1]
Ob  == Lines[i].obs[l + 1]

(* messages of an execution that has left the specification *)
Unknown(s, n) == Msg("unk", << <<"unk", s, n>> >>)

StepNew ==
  /\ Ev.a = "new"
  /\ Check(i, l + 1, "new", Ob.r = "ok", "no session")
  /\ W' = Append(W, NewSession(Ev.p))
  /\ kt' = Append(kt, <<0, 0>>)
  /\ UNCHANGED <<km, mx, free>>

Unexecuted ==           \* the message did not exist, or an edit of it makes no difference
  /\ Ev.a # "new" /\ Ob.r = "skip"
  /\ Check(i, l + 1, "skip",
           free \/ Ev.a # "run" \/ Resolve(W, Ev.m, l + 1) = NoMsg, "not executed")
  /\ UNCHANGED <<W, km, mx, free, kt>>

MsgIn == IF free
         THEN CASE Ev.m.t = "m" ->
                     IF Ev.m.ed = <<>> /\ Ev.m.s \in DOMAIN W /\ Ev.m.n \in DOMAIN W[Ev.m.s].out THEN W[Ev.m.s].out[Ev.m.n] ELSE BadMsg(l + 1)
                [] Ev.m.t = "e" -> EmptyMsg
                [] OTHER -> BadMsg(l + 1)
         ELSE Resolve(W, Ev.m, l + 1)

StepRun ==
  /\ Ev.a \in {"run", "sim"} /\ Ob.r # "skip"
  /\ LET s  == Ev.s
         m  == IF Ev.a = "sim" THEN NoMsg ELSE MsgIn
         ev == IF Ev.a = "sim" THEN <<>> ELSE Ev.ev
         S  == IF free THEN {} ELSE IF Ev.a = "sim" THEN SimSet(W, s) ELSE RunSet(W, s, m, ev, l + 1)
         S0 == IF free \/ ev = <<>> THEN S ELSE RunSet(W, s, m, <<>>, l + 1)
         C  == {o \in S : o.r = Ob.r}
     IN IF C # {}
        THEN LET o  == CHOOSE o \in C : TRUE
                 W1 == After(W, s, m, o)
                 W2 == IF Lied(ev, o, S0) THEN [W1 EXCEPT ![s].evil = TRUE] ELSE W1
                 n  == Len(W2[s].out)
                 md == ModeExp(W[s], W2[s])
                 m1 == MaxTok(mx, Ob.ft \o Ob.ks)
                 loose == W[s].P.lay \in {"latke", "chip"} /\ W2[s].st.taint
             IN /\ W' = W2
                /\ Unless(o.r # "some" \/ loose \/ \E x \in Range(ev) : x.t \in {"trunc", "ext"},
                     Check(i, l + 1, "len", Ob.len = ExpLen(Lines[i], W[s].P, n),
                           <<"length", Ob.len, "expected", ExpLen(Lines[i], W[s].P, n)>>))
                /\ Unless(loose, Fresh(i, l + 1, mx, Ob))
                /\ Check(i, l + 1, "mode", md = "na" \/ Ob.mode = md, <<"executed", Ob.mode, "expected", md>>)
                /\ DoneCheck(i, l + 1, W2[s], Ob)
                /\ Common(i, l + 1, Ob)
                /\ KeyCheck(i, l + 1, m1, km, W2[s], Ob)
                /\ km' = NewKm(km, W2[s], Ob)
                /\ mx' = MaxTok(m1, <<Ob.key>>)
                /\ kt' = [kt EXCEPT ![s] = <<Ob.key, Ob.id>>]
                /\ Monitor(i, l + 1, W2, kt', s)
                /\ UNCHANGED free
        ELSE (* the first step the specification does not allow; or one after that *)
             LET rs == IF \E o \in S : o.r = "rej" /\ Cardinality(S) = 1 THEN "r+"
                       ELSE IF Ob.r = "rej" THEN "r-" ELSE "rs"
                 o  == [r |-> Ob.r, o |-> Unknown(s, Len(W[s].out) + 1), i |-> NoMsg, st |-> W[s].st]
                 W2 == IF Ev.a = "sim" /\ Ob.r = "rej" THEN W ELSE After(W, s, m, o)
             IN /\ Unless(free, Rep(i, l + 1, rs, <<"result", Ob.r, "allowed", {x.r : x \in S}>>))
                /\ W' = [W2 EXCEPT ![s].evil = (@ \/ (ev # <<>>))]
                /\ free' = TRUE
                /\ Common(i, l + 1, Ob)
                /\ Fresh(i, l + 1, mx, Ob)
                /\ km' = km
                /\ mx' = MaxTok(mx, Ob.ft \o Ob.ks \o <<Ob.key>>)
                /\ kt' = [kt EXCEPT ![s] = <<Ob.key, Ob.id>>]
                /\ Monitor(i, l + 1, W', kt', s)

StepFin ==
  /\ Ev.a = "fin" /\ Ob.r # "skip"
  /\ LET s == Ev.s IN
     /\ Check(i, l + 1, "stable", Ob.key = kt[s][1] /\ Ob.id = kt[s][2], "the result changed")
     /\ Unless(free, KeyCheck(i, l + 1, mx, km, W[s], Ob) /\ DoneCheck(i, l + 1, W[s], Ob))
     /\ Common(i, l + 1, Ob)
     /\ km' = IF free THEN km ELSE NewKm(km, W[s], Ob)
     /\ mx' = MaxTok(mx, <<Ob.key>>)
     /\ kt' = [kt EXCEPT ![s] = <<Ob.key, Ob.id>>]
     /\ Monitor(i, l + 1, W, kt', s)
  /\ UNCHANGED <<W, free>>

Next ==
  /\ l < Len(Lines[i].acts)
  /\ l' = l + 1 /\ i' = i
  /\ StepNew \/ Unexecuted \/ StepRun \/ StepFin

Spec == Init /\ [][Next]_vars

(* every event of every execution was consumed: one state per event, and one before *)
Stats == PrintT(<<"STATES", TLCGet("stats").distinct>>)
=============================================================================
