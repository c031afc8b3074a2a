--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration: a few sessions and a network that delivers any    *)
(* message it has seen to any session, in any order, any number of times,    *)
(* and may edit up to MaxEdit of them. Insiders may edit their inner         *)
(* messages. All outcomes the specification leaves open are followed.        *)
EXTENDS Jobs, Props

(* JOB: layer; ED: how many edits; SIZE: "2" setups of two sessions only; MIX: "diag" some combinations of protocols only *)
MaxEdit == CASE IOEnv.ED = "0" -> 0 [] IOEnv.ED = "1" -> 1 [] OTHER -> 2

VARIABLES W, nj
vars == <<W, nj>>

Slots(k) == \* as in Gen
  CASE k = "kc1" -> <<"se">> [] k = "kc2" -> <<"se", "tag">> [] k = "kc3" -> <<"tag">>
    [] k = "ck1" -> <<"c1">> [] k = "ck2" -> <<"c2">>
    [] k = "cp1" -> <<"sid", "ri">> [] k = "cp2" -> <<"ri">>
    [] k = "fg1" -> <<"id", "ri", "ri">> [] k = "fg2" -> <<"id", "ri", "ri", "tag">> [] k = "fg3" -> <<"tag">>
    [] k = "hm1" -> <<"ri", "id", "ri", "sig">> [] k = "hm2" -> <<"ri", "tag", "id", "ri", "sig">> [] k = "hm3" -> <<"tag">>
    [] k = "sd"  -> <<"ri", "sig", "id", "spk", "ri", "sig">>
    [] k = "sg1" -> <<"n", "pk">> [] k = "sg2" -> <<"n", "ct">>
    [] k = "ch"  -> <<"ri", "ri">>
    [] OTHER -> <<>>

RECURSIVE MkWorld(_, _)
MkWorld(ps, n) == IF n = 0 THEN <<>> ELSE Append(MkWorld(ps, n - 1), NewSession(ps[n]))

(* What the sessions give when asked *)
IdN(t) == IF t[1] = "id" THEN t[2] ELSE 0 - 1
View == [s \in DOMAIN W |->
  LET f == FinOf(W[s]) IN
  [P |-> W[s].P, out |-> W[s].out, rc |-> W[s].rc, oa |-> W[s].oa, evil |-> W[s].evil,
   key |-> IF f.c = "key" THEN f.k ELSE NoKey, id |-> IdN(f.id)]]

Tainted(S) == (S.P.lay \in {"latke", "chip"} /\ S.st.taint) \/ (S.P.lay = "ibke" /\ S.st.sim)

Ref(s, n, ed) == [t |-> "m", s |-> s, n |-> n, ed |-> ed]
Refs == {[t |-> "e", s |-> 0, n |-> 0, ed |-> <<>>]}
        \cup {Ref(r[1], r[2], <<>>) : r \in {<<s, n>> \in (DOMAIN W) \X (1..8) : n \in DOMAIN W[s].out}}
Edits(r) ==
  LET m == W[r.s].out[r.n] IN
  {<<[t |-> "flip", f |-> f, s |-> 0, n |-> 0, g |-> 0]>> : f \in DOMAIN m.f}
  \cup {<<[t |-> "trunc", f |-> 0, s |-> 0, n |-> 0, g |-> 0]>>}
  \cup {<<e>> : e \in {[t |-> "spl", f |-> f, s |-> q.s, n |-> q.n, g |-> g] : f \in 1..Len(Slots(m.k)), q \in Refs, g \in 1..6}
                    \cap {[t |-> "spl", f |-> f, s |-> s, n |-> n, g |-> g] : f \in 1..6, s \in DOMAIN W, n \in 1..8, g \in 1..6}}
SplOk(r, ed) ==
  ed[1].t = "spl" => LET a == W[r.s].out[r.n]  b == W[ed[1].s].out[ed[1].n] IN
    /\ ed[1].g <= Len(Slots(b.k)) /\ Slots(a.k)[ed[1].f] = Slots(b.k)[ed[1].g] /\ a.f[ed[1].f] # b.f[ed[1].g]

(* A simulating LATKE session ignores what it receives (EueStep): junk stands for all of it. (Being in no
   conversation at all, junk is also what makes the properties hardest to satisfy.) And a key exchange that has not
   begun stays as it is when it rejects something, so that this need not be followed there; the PAKEs by themselves do. *)
Simulating(S) == S.P.lay = "latke" /\ ~ S.st.real
Shrug(S, o) == S.P.lay = "latke" /\ o.r = "rej" /\ o.st = [S.st EXCEPT !.pk.sh = TRUE]
Junk == [t |-> "r", s |-> 0, n |-> 0, ed |-> <<>>]

Deliver(s, ref, ev, u) ==
  LET m == Resolve(W, ref, u) IN
  /\ ~ Tainted(W[s])
  /\ Simulating(W[s]) <=> ref = Junk
  /\ \E o \in {x \in RunSet(W, s, m, ev, u) : ~ Shrug(W[s], x)} :
       LET W1 == After(W, s, m, o)
           S0 == IF ev = <<>> THEN {} ELSE RunSet(W, s, m, <<>>, u)
       IN W' = IF Lied(ev, o, S0) THEN [W1 EXCEPT ![s].evil = TRUE] ELSE W1

Faithful == \E s \in DOMAIN W, ref \in Refs \cup {Junk} : Deliver(s, ref, <<>>, 100 + 10 * s + Len(W[s].rc)) /\ UNCHANGED nj
Edited ==
  /\ nj < MaxEdit /\ nj' = nj + 1
  /\ \E s \in DOMAIN W, ref \in Refs :
       ref.t = "m" /\ \E ed \in Edits(ref) : SplOk(ref, ed) /\ Deliver(s, [ref EXCEPT !.ed = ed], <<>>, 101 + nj)
Lying ==
  /\ nj < MaxEdit /\ nj' = nj + 1
  /\ \E s \in DOMAIN W, ref \in Refs : \E f \in 1..6 :
       Deliver(s, ref, <<[t |-> "flip", f |-> f, s |-> 0, n |-> 0, g |-> 0]>>, 101 + nj)
Simulate == \E s \in DOMAIN W : W[s].P.lay = "ibke" /\ W[s].st.step < 2 /\ \E o \in SimSet(W, s) : W' = After(W, s, NoMsg, o) /\ UNCHANGED nj

(* JOB: layer, protocols and setup *)
LSetups(it, pt) ==
  LET I(u) == Lk(it, pt, "I", 1, 1, u, 0)  R(u) == Lk(it, pt, "R", 1, 1, u, 0) IN
  { <<I(1), R(2)>>, <<I(1), R(2), R(2)>>, <<I(1), R(2), I(1)>>, <<I(1), [R(2) EXCEPT !.ssid = 2], R(3)>>,
    <<I(1), Lk(it, pt, "R", 1, 2, 2, 0), R(2)>>, <<I(1), I(2)>>,
    <<Lk(it, pt, "I", 1, 1, 1, 2), Lk(it, pt, "R", 1, 1, 2, 1)>>,
    <<Lk(it, pt, "I", 1, 1, 1, 2), [Lk(it, pt, "R", 1, 1, 2, 1) EXCEPT !.ci = 3, !.cr = 99]>>,
    <<Lk(it, pt, "I", 1, 1, 1, 3), Lk(it, pt, "R", 1, 1, 2, 1)>>,
    <<I(1), [R(2) EXCEPT !.cg = 7]>>, <<I(1), [R(2) EXCEPT !.us = 1, !.cr = 99]>> }
  \cup Altered(it, I(1), R(2))
ISetups(it) ==
  LET I(u) == Ik(it, "I", 1, u)  R(u) == Ik(it, "R", 1, u) IN
  { <<I(1), R(2)>>, <<I(1), R(2), R(2)>>, <<I(1), I(1), R(2)>>, <<I(1), R(1)>>, <<I(1), [R(2) EXCEPT !.ssid = 2], R(2)>>,
    <<I(1), R(2), R(3)>>, <<I(1), I(3), R(2)>>,
    <<I(1), [R(2) EXCEPT !.cg = 2]>>, <<[I(1) EXCEPT !.us = 2], R(2)>>, <<I(1), [R(2) EXCEPT !.mk = 2, !.cg = 2], R(3)>>,
    <<[I(1) EXCEPT !.fi = 3, !.cr = 96], R(2), R(2)>> }
  \cup {ps \in Altered(it, I(1), R(2)) : ps[1].fi + ps[2].fi \in {0, 3} /\ ps[1].fu + ps[2].fu \in {0, 5}}     \* the network can restore the others
PSetups(t) ==
  { PPair(t, 1, 1), PPair(t, 1, 1) \o PPair(t, 1, 1), PPair(t, 1, 1) \o PPair(t, 2, 1), PPair(t, 1, 1) \o PPair(t, 1, 2),
    <<Pk(t, "I", 1, 1), Pk(t, "R", 1, 2)>>, <<Pk(t, "I", 1, 1), Pk(t, "R", 2, 1)>>,
    <<Pk(t, "R", 1, 1), Pk(t, "R", 1, 1), Pk(t, "I", 1, 1)>>, <<Pk(t, "I", 1, 1), Pk(t, "I", 1, 1)>> }
CSetups(t) ==
  { CPair(t, 1, 1, 1, 2), CPair(t, 1, 1, 1, 2) \o <<Ch(t, "R", 1, 1, 2, 1)>>, CPair(t, 1, 1, 1, 2) \o <<Ch(t, "I", 1, 1, 1, 2)>>,
    <<Ch(t, "I", 1, 1, 1, 2), Ch(t, "R", 1, 1, 2, 3)>>, <<Ch(t, "I", 1, 1, 1, 2), Ch(t, "R", 1, 2, 2, 1)>>,
    <<Ch(t, "I", 1, 1, 1, 2), Ch(t, "I", 1, 1, 2, 1)>> }

Fits(S) == IF IOEnv.SIZE = "2" THEN {ps \in S : Len(ps) <= 2} ELSE IF IOEnv.SIZE = "3" THEN {ps \in S : Len(ps) <= 3} ELSE S
Mixes == IF IOEnv.MIX = "diag" THEN {<<"fg", "kc">>, <<"hm", "ck">>, <<"sd", "cp">>, <<"se", "kc">>, <<"sd", "mp">>}
         ELSE IF IOEnv.MIX = "mock" THEN ITs \X {"mp"}
         ELSE ITs \X PTm
Setups ==
  Fits(CASE Env = "latke" -> UNION {LSetups(c[1], c[2]) : c \in Mixes}
         [] Env = "ibke"  -> UNION {ISetups(it) : it \in ITs}
         [] Env = "pake"  -> UNION {PSetups(t) : t \in PTs}
         [] Env = "chip"  -> UNION {CSetups(t) : t \in PTs})

Init == /\ \E ps \in Setups : W = MkWorld(ps, Len(ps))
        /\ nj = 0
Next == Faithful \/ Edited \/ Lying \/ Simulate
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Agreement      == EqAll(View)
Authentication == \A s \in DOMAIN W : KeyOk(View, s)
Identity       == (\A s \in DOMAIN W : IdOk(View, s)) /\ IdPair(View)
(* no key before the end, or after a failure *)
NoEarlyKey == \A s \in DOMAIN W : View[s].key # NoKey => Finished(W[s]) /\ ~ Tainted(W[s])
(* one key per channel: no two ciphertexts of the whole world under one generation and direction *)
Cts == {<<s, n>> \in (DOMAIN W) \X (1..8) : n \in DOMAIN W[s].out /\ W[s].out[n].k = "ct"}
OneTime == \A p, q \in Cts : p # q => W[p[1]].out[p[2]].f[1] # W[q[1]].out[q[2]].f[1]
(* two honest ends of an unmodified conversation that both completed hold one key *)
Together ==
  \A i, j \in DOMAIN W :
    (i < j /\ View[i].key # NoKey /\ View[j].key # NoKey /\ Compatible(View[i], View[j]) /\ Agreeing(View[i], View[j])
     /\ Len(View[i].rc) = Len(View[j].out) /\ Len(View[j].rc) = Len(View[i].out)
     /\ Honest(W[i]) /\ Honest(W[j]))
      => View[i].key = View[j].key
(* LATKE: a session that went over to simulation stays there, and sends what an honest one sends *)
SimForever == [][\A s \in DOMAIN W : (W[s].P.lay = "latke" /\ ~W[s].st.real) => ~W'[s].st.real /\ FinOf(W'[s]).c = "rej"]_vars
(* completion is final, and so is its result *)
Final == [][\A s \in DOMAIN W : (Finished(W[s]) /\ ~Tainted(W[s])) => /\ Finished(W'[s])
                                    /\ (W[s].P.lay # "ibke" => FinOf(W'[s]) = FinOf(W[s]))]_vars
(* one guess *)
OneGuess == [][\A s \in DOMAIN W : (W[s].P.lay = "pake" /\ W[s].st.dead) => W'[s] = W[s]]_vars

(* Is all of this about anything? Registers count the states of interest *)
Bump(r, c) == IF c THEN TLCSet(r, TLCGet(r) + 1) ELSE TRUE
Interesting ==
  /\ Bump(1, \E s, t \in DOMAIN W : s < t /\ View[s].key # NoKey /\ View[s].key = View[t].key)
  /\ Bump(2, \E s \in DOMAIN W : W[s].P.lay = "latke" /\ ~W[s].st.real /\ W[s].st.ib.done)
  /\ Bump(3, \E s \in DOMAIN W : View[s].key # NoKey /\ nj > 0)
  /\ Bump(4, \E s \in DOMAIN W : W[s].evil)
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Total(r) == SumSeq(TLCGet("all")[r])
Stats == PrintT(<<"REACHED", TLCGet("stats").distinct, TLCGet("stats").generated, Total(1), Total(2), Total(3), Total(4)>>)
=============================================================================
