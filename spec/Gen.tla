-------------------------------- MODULE Gen --------------------------------
(* Behaviours of the specification, written down as scenarios for the code.  *)
(*                                                                           *)
(* A job is [ps, cv, ord, k, dv, tgt, x, ml, thr, n]:                         *)
(*   ps   parameters of the sessions                                         *)
(*   cv   conversations: each a sequence of two sessions                     *)
(*   ord  "seq" one conversation after the other, "lock" in lock-step,        *)
(*        "free" in every interleaving                                       *)
(*   k    how often the network deviates from faithful delivery              *)
(*   dv   which deviations it may use; tgt: against which conversations       *)
(*   n    instead of conversations: any n deliveries of anything to anyone   *)
(*   x    how many different concrete executions to derive, ml: lengths of   *)
(*        the mock's messages, thr: run steps on threads of their own        *)
EXTENDS Props, Json

CONSTANT Jobs        \* a set of jobs

VARIABLES j, W, hist, cs, turn, left, rejs
vars == <<j, W, hist, cs, turn, left, rejs>>

J == j

---------------------------------------------------------------------------
(* Field types by message kind: fields of one type may be exchanged *)
Slots(k) ==
  CASE k = "kc1" -> <<"se">>
    [] k = "kc2" -> <<"se", "tag">>
    [] k = "kc3" -> <<"tag">>
    [] k = "cp1" -> <<"sid", "ri">>
    [] k = "cp2" -> <<"ri">>
    [] k = "fg1" -> <<"id", "ri", "ri">>
    [] k = "fg2" -> <<"id", "ri", "ri", "tag">>
    [] k = "fg3" -> <<"tag">>
    [] k = "hm1" -> <<"ri", "id", "ri", "sig">>
    [] k = "hm2" -> <<"ri", "tag", "id", "ri", "sig">>
    [] k = "hm3" -> <<"tag">>
    [] k = "sd"  -> <<"ri", "sig", "id", "spk", "ri", "sig">>
    [] k = "sg1" -> <<"n", "pk">>
    [] k = "sg2" -> <<"n", "ct">>
    [] k = "ch"  -> <<"ri", "ri">>
    [] OTHER -> <<>>

(* Accept where the specification leaves it open, and go on *)
Pick(S) == IF \E o \in S : o.r # "rej" THEN CHOOSE o \in S : o.r # "rej" ELSE CHOOSE o \in S : TRUE

Ref(s, n, ed) == [t |-> "m", s |-> s, n |-> n, ed |-> ed]
E0 == [t |-> "e", s |-> 0, n |-> 0, ed |-> <<>>]
R0 == [t |-> "r", s |-> 0, n |-> 0, ed |-> <<>>]
Flip(f)          == [t |-> "flip", f |-> f, s |-> 0, n |-> 0, g |-> 0]
Part(f)          == [t |-> "part", f |-> f, s |-> 0, n |-> 0, g |-> 0]
Spl(f, s, n, g)  == [t |-> "spl", f |-> f, s |-> s, n |-> n, g |-> g]
TruncE == [t |-> "trunc", f |-> 0, s |-> 0, n |-> 0, g |-> 0]
ExtE   == [t |-> "ext", f |-> 0, s |-> 0, n |-> 0, g |-> 0]

(* Certificates in messages: their fields *)
CertFields(k) == CASE k \in {"fg1", "fg2"} -> <<1, 2>> [] k = "hm1" -> <<2, 3, 4>> [] k = "hm2" -> <<3, 4, 5>>
                   [] k = "sd" -> <<3, 4, 5, 6>> [] OTHER -> <<>>
SameCerts(a, b) == CertFields(a) # <<>> /\ (a = b \/ {a, b} = {"fg1", "fg2"} \/ {a, b} = {"hm1", "hm2"})
CertEdits(a, b, q) == [h \in 1..Len(CertFields(a)) |-> Spl(CertFields(a)[h], q[1], q[2], CertFields(b)[h])]

MsgRefs == {r \in {<<s, n>> : s \in DOMAIN W, n \in 1..8} : r[2] \in DOMAIN W[r[1]].out}
Orig(r) == W[r[1]].out[r[2]]

(* Everything the network could hand over instead of the message ref (<<s, n>>, or <<0,0>> for the empty message) *)
Splices(m, Q) ==       \* Q: function from <<s, n>> to messages
  {Spl(f, q[1], q[2], g) : f \in 1..Len(Slots(m.k)), q \in DOMAIN Q, g \in 1..5}
SpliceOk(m, Q, e) ==
  LET src == Q[<<e.s, e.n>>] IN
  /\ e.g <= Len(Slots(src.k))
  /\ Slots(m.k)[e.f] = Slots(src.k)[e.g]
  /\ src.f[e.g] # m.f[e.f]
OutMap == [r \in MsgRefs |-> Orig(r)]
Alts(ref) ==
  LET isM == ref.t = "m"
      m   == IF isM THEN Orig(<<ref.s, ref.n>>) ELSE EmptyMsg
      D   == J.dv
  IN (IF "flip" \in D /\ isM THEN {Ref(ref.s, ref.n, <<Flip(f)>>) : f \in DOMAIN m.f} ELSE {})
     \cup (IF "trunc" \in D /\ isM THEN {Ref(ref.s, ref.n, <<TruncE>>)} ELSE {})
     \cup (IF "ext" \in D /\ isM THEN {Ref(ref.s, ref.n, <<ExtE>>)} ELSE {})
     \cup (IF "part" \in D /\ isM THEN {Ref(ref.s, ref.n, <<[Part(1) EXCEPT !.s = r[1], !.n = r[2]]>>)
                                        : r \in {q \in MsgRefs : Orig(q).k = m.k /\ Orig(q) # m /\ Len(m.f) = 1}} ELSE {})
     \cup (IF "empty" \in D /\ isM THEN {E0} ELSE {})
     \cup (IF "rand" \in D THEN {R0} ELSE {})
     \cup (IF "swap" \in D THEN {Ref(r[1], r[2], <<>>) : r \in {q \in MsgRefs : Orig(q) # m}} ELSE {})
     \cup (IF "ncert" \in D /\ isM
           THEN {Ref(ref.s, ref.n, CertEdits(m.k, Orig(q).k, q)) : q \in {p \in MsgRefs : SameCerts(m.k, Orig(p).k)}}
           ELSE {})
     \cup (IF "spl" \in D /\ isM
           THEN {Ref(ref.s, ref.n, <<e>>) : e \in {x \in Splices(m, OutMap) : SpliceOk(m, OutMap, x)}}
           ELSE {})

(* What a misbehaving insider can do to its own inner message m *)
InnMap == [r \in {q \in {<<s, n>> : s \in DOMAIN W, n \in 1..4} : q[2] \in DOMAIN W[q[1]].inn} |-> W[r[1]].inn[r[2]]]
EvilAlts(m) ==
  (IF "eflip" \in J.dv THEN {<<Flip(f)>> : f \in DOMAIN m.f} ELSE {})
  \cup (IF "etrunc" \in J.dv THEN {<<TruncE>>, <<ExtE>>} ELSE {})
  \cup (IF "espl" \in J.dv THEN {<<e>> : e \in {x \in Splices(m, InnMap) : SpliceOk(m, InnMap, x)}} ELSE {})
  \cup (IF "ecert" \in J.dv      \* a whole certificate of somebody else
        THEN {CertEdits(m.k, InnMap[q].k, q) : q \in {p \in DOMAIN InnMap : SameCerts(m.k, InnMap[p].k)}}
        ELSE {})

---------------------------------------------------------------------------
RunAct(s, ref, ev) == [a |-> "run", s |-> s, m |-> ref, ev |-> ev]
SimAct(s) == [a |-> "sim", s |-> s]

Other(c, s) == IF J.cv[c][1] = s THEN J.cv[c][2] ELSE J.cv[c][1]

(* the queue of conversation c after session s answered delivery ref with outcome o; dev: the delivery was a deviation *)
AfterQ(c, s, ref, o, q, dev, W2) ==
  IF o.r = "some" THEN [q |-> Append(q, <<Other(c, s), Ref(s, Len(W2[s].out), <<>>)>>), idle |-> 0, retry |-> cs[c].retry]
  ELSE IF o.r = "none"
  THEN IF W2[s].P.lay = "latke" /\ q = <<>> /\ cs[c].idle = 0 /\ ~ Finished(W2[Other(c, s)])
       THEN [q |-> << <<Other(c, s), E0>> >>, idle |-> 1, retry |-> cs[c].retry]
       ELSE [q |-> q, idle |-> 0, retry |-> cs[c].retry]
  ELSE IF dev /\ W2[s].P.lay # "chip"
  THEN [q |-> << <<s, ref>> >> \o q, idle |-> 0, retry |-> cs[c].retry]      \* now the genuine one
  ELSE [q |-> q, idle |-> 0, retry |-> cs[c].retry]

Do(c, s, orig, ref, ev, dev, q) ==
  LET u == Len(hist) + 1
      m == Resolve(W, ref, u)
      o == Pick(RunSet(W, s, m, ev, u))
      W2 == After(W, s, m, o)
  IN /\ m # NoMsg
     /\ W' = W2
     /\ hist' = Append(hist, RunAct(s, ref, ev))
     /\ cs' = [cs EXCEPT ![c] = AfterQ(c, s, orig, o, q, dev, W2)]

Enabled(c) ==
  CASE J.ord = "seq"  -> \A d \in 1..(c - 1) : cs[d].q = <<>>
    [] J.ord = "lock" -> \/ turn % Len(J.cv) = c - 1
                         \/ \A d \in DOMAIN J.cv : d # c => cs[d].q = <<>>
    [] OTHER -> TRUE

Step(c) ==
  /\ cs[c].q # <<>> /\ Enabled(c)
  /\ turn' = IF J.ord = "lock" THEN c ELSE turn
  /\ LET s == Head(cs[c].q)[1]
         ref == Head(cs[c].q)[2]
         q == Tail(cs[c].q)
     IN \/ Do(c, s, ref, ref, <<>>, FALSE, q) /\ UNCHANGED left
        \/ /\ left > 0 /\ c \in J.tgt
           /\ left' = left - 1
           /\ \/ \E a \in Alts(ref) : Do(c, s, ref, a, <<>>, TRUE, q)
              \/ "dup" \in J.dv /\ Do(c, s, ref, ref, <<>>, FALSE, <<Head(cs[c].q)>> \o q)
              \/ /\ "drop" \in J.dv
                 /\ cs' = [cs EXCEPT ![c].q = q]
                 /\ UNCHANGED <<W, hist>>
              \/ /\ J.dv \cap {"eflip", "etrunc", "espl", "ecert"} # {}
                 /\ LET u == Len(hist) + 1
                        o == Pick(RunSet(W, s, Resolve(W, ref, u), <<>>, u))
                    IN o.r = "some" /\ o.i.k # "none" /\ \E ev \in EvilAlts(o.i) : Do(c, s, ref, ref, ev, FALSE, q)
              \/ /\ "sim" \in J.dv
                 /\ LET o == CHOOSE o \in SimSet(W, s) : TRUE
                        W2 == After(W, s, NoMsg, o)
                    IN /\ W' = W2
                       /\ hist' = Append(hist, SimAct(s))
                       /\ cs' = [cs EXCEPT ![c].q = q]
  /\ UNCHANGED <<j, rejs>>

(* After everything: one delivery of anything that exists to anyone *)
Quiet == \A c \in DOMAIN J.cv : cs[c].q = <<>>
Extra ==
  /\ Quiet /\ left > 0 /\ "extra" \in J.dv /\ J.n = 0
  /\ left' = left - 1
  /\ \E s \in DOMAIN W : \E ref \in {E0, R0} \cup {Ref(r[1], r[2], <<>>) : r \in MsgRefs} :
       LET u == Len(hist) + 1
           m == Resolve(W, ref, u)
           o == Pick(RunSet(W, s, m, <<>>, u))
       IN /\ \E c \in J.tgt : \E k \in DOMAIN J.cv[c] : J.cv[c][k] = s
          /\ W' = After(W, s, m, o)
          /\ hist' = Append(hist, RunAct(s, ref, <<>>))
  /\ UNCHANGED <<j, cs, turn, rejs>>

(* Every step simulated from here: sessions in cv[1], alternately *)
SimStep ==
  /\ "simall" \in J.dv /\ J.n > 0 /\ left > 0
  /\ left' = left - 1
  /\ \E s \in DOMAIN W :
       LET o == CHOOSE o \in SimSet(W, s) : TRUE
       IN /\ W' = After(W, s, NoMsg, o)
          /\ rejs' = rejs + (IF o.r = "rej" THEN 1 ELSE 0)
          /\ rejs' <= 1
          /\ hist' = Append(hist, SimAct(s))
  /\ UNCHANGED <<j, cs, turn>>

(* Any message to anyone *)
AnyStep ==
  /\ J.n > 0 /\ left > 0
  /\ left' = left - 1
  /\ \E s \in {x \in DOMAIN W : ~ (W[x].P.lay = "ibke" /\ W[x].st.sim)} : \E ref \in {E0} \cup {Ref(r[1], r[2], <<>>) : r \in MsgRefs} :
       LET u == Len(hist) + 1
           m == Resolve(W, ref, u)
           o == Pick(RunSet(W, s, m, <<>>, u))
       IN /\ W' = After(W, s, m, o)
          /\ rejs' = rejs + (IF o.r = "rej" THEN 1 ELSE 0)
          /\ rejs' <= J.k
          /\ hist' = Append(hist, RunAct(s, ref, <<>>))
  /\ UNCHANGED <<j, cs, turn>>

RECURSIVE MkWorld(_, _)
MkWorld(ps, n) == IF n = 0 THEN <<>> ELSE Append(MkWorld(ps, n - 1), NewSession(ps[n]))

(* initiators are started first *)
Starts(ps, cv) ==
  (IF ps[cv[1]].role = "I" THEN << <<cv[1], E0>> >> ELSE <<>>) \o
  (IF ps[cv[2]].role = "I" THEN << <<cv[2], E0>> >> ELSE <<>>)

Init ==
  /\ j \in Jobs
  /\ W = MkWorld(J.ps, Len(J.ps))
  /\ hist = [s \in 1..Len(J.ps) |-> [a |-> "new", p |-> J.ps[s]]]
  /\ cs = [c \in DOMAIN J.cv |-> [q |-> Starts(J.ps, J.cv[c]), idle |-> 0, retry |-> 0]]
  /\ turn = 0 /\ rejs = 0
  /\ left = IF J.n > 0 THEN J.n ELSE J.k

Next == Extra \/ SimStep \/ AnyStep \/ (J.n = 0 /\ \E c \in DOMAIN J.cv : Step(c))

(* A scenario is complete when nothing is left to do *)
Complete == IF J.n > 0 THEN left = 0 ELSE Quiet
Emit == Complete => PrintT(ToJson([x |-> J.x, thr |-> J.thr, ml |-> J.ml, acts |-> hist]))

Spec == Init /\ [][Next]_vars
=============================================================================
