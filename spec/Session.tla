------------------------------ MODULE Session ------------------------------
(* Sessions of every layer in one world.                                     *)
(*                                                                           *)
(* A world W is a sequence of sessions [P, st, out, inn, rc, oa, evil]:      *)
(*   P    parameters, a record with the same fields for all layers:          *)
(*        lay ("pake" "ibke" "latke" "chip"), pt, it, role, ssid, pw, mk,    *)
(*        id, peer (0: post-specified), cr, cg, cu, us, ci, fi, fu, w (small *)
(*        integers; fi, fu: what the certificate was issued for, if its      *)
(*        holder has since altered it; w: if it holds no certificate, or not *)
(*        its key, the way in which it tries to do without, which should     *)
(*        make no difference)                                                *)
(*   st   state; out  messages sent so far; inn  LATKE: inner messages as    *)
(*        they were encrypted                                                *)
(*   rc   the non-empty messages it accepted, in order;                      *)
(*   oa   for each message in out, how many of rc it had accepted by then;   *)
(*   evil it lied about its inner messages                                   *)
EXTENDS Pake, Ibke

Mk(n) == <<"mk", n>>          \* the centre number n (IBKE layer, foreign centres)
MkPw(n) == <<"mkpw", n>>      \* the centre derived from password n

PakeQ(P, s, pw) == [t |-> P.pt, role |-> P.role, ssid |-> P.ssid, pw |-> pw, s |-> s]

(* ci: what its certificate says, if it calls itself something else *)
CertId(P) == IF P.ci = 0 THEN P.id ELSE P.ci

IbkeQ(P, s) ==
  [t |-> P.it, role |-> P.role, ssid |-> P.ssid, s |-> s, id |-> Id(CertId(P)), cr |-> P.cr, cu |-> P.cu, us |-> P.us,
   fi |-> Id(IF P.fi = 0 THEN CertId(P) ELSE P.fi), fu |-> IF P.fu = 0 THEN P.cu ELSE P.fu,
   mk |-> IF P.lay = "latke" THEN MkPw(P.pw) ELSE Mk(P.mk),
   cg |-> IF P.lay = "latke" /\ P.cg = 0 THEN MkPw(P.pw) ELSE Mk(P.cg)]

(* the PAKE inside LATKE runs on the main public key, and on the identities if the peer is pre-specified *)
LatkePw(P) ==
  <<"lp", P.pw, IF P.peer = 0 THEN <<>> ELSE IF P.role = "I" THEN <<P.id, P.peer>> ELSE <<P.peer, P.id>> >>

---------------------------------------------------------------------------
(* Edits of messages in flight. src is a sequence of message sequences, u makes junk unique *)
RECURSIVE ApplyEdits(_, _, _, _, _)
ApplyEdits(src, m, eds, j, u) ==
  IF j > Len(eds) THEN m
  ELSE LET e == eds[j]
           n == CASE e.t \in {"flip", "part"} -> [m EXCEPT !.f[e.f] = <<"jk", u, e.f>>]
                  [] e.t = "spl"  -> [m EXCEPT !.f[e.f] = src[e.s][e.n].f[e.g]]
                  [] OTHER        -> BadMsg(u)
       IN ApplyEdits(src, n, eds, j + 1, u)

EditsOk(src, m, eds) ==
  \A j \in DOMAIN eds :
    /\ eds[j].t \in {"flip", "part"} => eds[j].f \in DOMAIN m.f
    /\ eds[j].t = "spl" => /\ eds[j].f \in DOMAIN m.f
                           /\ eds[j].s \in DOMAIN src
                           /\ eds[j].n \in DOMAIN src[eds[j].s]
                           /\ eds[j].g \in DOMAIN src[eds[j].s][eds[j].n].f

Outs(W) == [i \in DOMAIN W |-> W[i].out]
Inns(W) == [i \in DOMAIN W |-> W[i].inn]

(* The message a reference denotes, or NoMsg *)
Resolve(W, ref, u) ==
  CASE ref.t = "e" -> EmptyMsg
    [] ref.t = "r" -> BadMsg(u)
    [] ref.t = "m" ->
        IF ref.s \in DOMAIN W /\ ref.n \in DOMAIN W[ref.s].out
           /\ W[ref.s].out[ref.n].k # "none" /\ EditsOk(Outs(W), W[ref.s].out[ref.n], ref.ed)
        THEN ApplyEdits(Outs(W), W[ref.s].out[ref.n], ref.ed, 1, u)
        ELSE NoMsg

---------------------------------------------------------------------------
(* LATKE: the PAKE, then the IBKE with every message encrypted under its own generation of keys *)
LatkeInit(P) ==
  [pk |-> PakeInit(P.role), ib |-> IbkeInit(P.role), on |-> FALSE, gen |-> 0, first |-> P.role = "I",
   real |-> TRUE, tr |-> <<>>, taint |-> FALSE]

EueKey(P, st) == <<"ek", st.pk.key, P.ssid>>

Taint(st) == [st EXCEPT !.taint = TRUE]

(* One encrypted step. ev: edits a misbehaving insider applies to its own inner message before encrypting it.
   Outcomes carry the inner message too. *)
EueStep(W, P, s, st, m, ev, u) ==
  LET opened == m.k = "ct" /\ m.f[1][1] = "ae" /\ m.f[1][2] = <<EueKey(P, st), st.gen>>
      real == st.real /\ (m.k = "empty" \/ opened)
      g == IF st.first THEN st.gen ELSE st.gen + 1
      ct(inner) == Msg("ct", << <<"ae", <<EueKey(P, st), g>>, inner, s>> >>)
      nxt(ib) == [st EXCEPT !.ib = ib, !.gen = g + 1, !.first = FALSE, !.real = real]
  IN IF st.ib.done THEN {[r |-> "rej", o |-> NoMsg, i |-> NoMsg, st |-> st]}
     ELSE IF real
     THEN { IF o.r = "rej" THEN [r |-> "rej", o |-> NoMsg, i |-> NoMsg, st |-> Taint(st)]
            ELSE IF o.r = "none" THEN [r |-> "none", o |-> NoMsg, i |-> NoMsg, st |-> nxt(o.st)]
            ELSE LET inner == IF EditsOk(Inns(W), o.o, ev) THEN ApplyEdits(Inns(W), o.o, ev, 1, u) ELSE o.o
                 IN [r |-> "some", o |-> ct(inner), i |-> inner, st |-> nxt(o.st)]
          : o \in IbkeRun(IbkeQ(P, s), st.ib, IF m.k = "empty" THEN m ELSE m.f[1][3]) }
     ELSE { IF o.r = "some" THEN [r |-> "some", o |-> ct(ZeroMsg), i |-> NoMsg, st |-> nxt(o.st)]
            ELSE [r |-> o.r, o |-> NoMsg, i |-> NoMsg, st |-> nxt(o.st)]
          : o \in IbkeSim(IbkeQ(P, s), st.ib) }

Record(st, m, o) ==      \* the running transcript; nobody will ever ask a simulating session for it
  IF ~ st.real THEN [st EXCEPT !.tr = <<>>] ELSE [st EXCEPT !.tr = @ \o (IF m.k = "empty" THEN <<>> ELSE <<m>>) \o (IF o.r = "some" THEN <<o.o>> ELSE <<>>)]

LatkeRun(W, P, s, st, m, ev, u) ==
  IF st.taint
  THEN {[r |-> "some", o |-> Msg("ct", << <<"jk", u, 1>> >>), i |-> NoMsg, st |-> st],
        [r |-> "none", o |-> NoMsg, i |-> NoMsg, st |-> st],
        [r |-> "rej", o |-> NoMsg, i |-> NoMsg, st |-> st]}
  ELSE IF ~ st.pk.done
  THEN UNION {
         LET st1 == [st EXCEPT !.pk = o.st] IN
         CASE o.r = "rej"  -> {[r |-> "rej", o |-> NoMsg, i |-> NoMsg, st |-> st1]}
           [] o.r = "some" -> {[r |-> "some", o |-> o.o, i |-> NoMsg, st |-> Record(st1, m, o)]}
           [] OTHER ->
                IF P.role = "I"      \* nothing more to send in the PAKE: start the key exchange right away
                THEN {IF e.r = "rej" THEN e ELSE [e EXCEPT !.st = Record(e.st, m, e)]
                      : e \in EueStep(W, P, s, [st1 EXCEPT !.on = TRUE], EmptyMsg, ev, u)}
                ELSE {[r |-> "none", o |-> NoMsg, i |-> NoMsg, st |-> Record([st1 EXCEPT !.on = TRUE], m, o)]}
         : o \in PakeRun(PakeQ(P, s, LatkePw(P)), st.pk, m) }
  ELSE {IF e.r = "rej" THEN e ELSE [e EXCEPT !.st = Record(e.st, m, e)]
        : e \in EueStep(W, P, s, [st EXCEPT !.on = TRUE], m, ev, u)}

(* A key: only after a completed, entirely real run with the right peer *)
LatkeFin(P, st) ==
  IF st.on /\ ~st.taint /\ st.real /\ st.ib.done /\ (P.peer # 0 => st.ib.oid \in {Id(P.peer)})
  THEN [k |-> <<"lk", st.tr, st.ib.key>>, id |-> st.ib.oid]
  ELSE [k |-> NoKey, id |-> NoTerm]

---------------------------------------------------------------------------
(* CHIP: an unauthenticated Fiore-Gennaro exchange, whose result is the password of a PAKE.
   m: the first message received, pw: the PAKE password that follows from it *)
ChipInit(P) ==
  [step |-> IF P.role = "I" THEN 0 ELSE 1, m |-> EmptyMsg, pw |-> NoTerm, pk |-> PakeInit(P.role), taint |-> FALSE]
ChX(P)      == <<"cX", P.cr, P.id, P.pw>>
ChEph(s)    == <<"ce", s>>
ChMsg(P, s) == Msg("ch", <<ChX(P), ChEph(s)>>)
ChipPw(P, s, m, tr) ==
  <<"chip", {<<ChEph(s), Id(P.id), ChX(P), P.pw>>, <<m.f[2], Id(P.peer), m.f[1], P.pw>>}, tr>>

ChipRej(st) == [r |-> "rej", o |-> NoMsg, i |-> NoMsg, st |-> [st EXCEPT !.taint = TRUE]]

ChipPake(P, s, st, pw, m) ==
  {[r |-> o.r, o |-> o.o, i |-> NoMsg, st |-> [st EXCEPT !.step = 4, !.pk = o.st, !.pw = pw]]
   : o \in {x \in PakeRun(PakeQ(P, s, pw), st.pk, m) : x.r # "rej"}}
  \cup {ChipRej(st) : o \in {x \in PakeRun(PakeQ(P, s, pw), st.pk, m) : x.r = "rej"}}

ChipRun(P, s, st, m) ==
  IF st.taint
  THEN {[r |-> "some", o |-> BadMsg(1000 + s), i |-> NoMsg, st |-> st],
        [r |-> "none", o |-> NoMsg, i |-> NoMsg, st |-> st],
        [r |-> "rej", o |-> NoMsg, i |-> NoMsg, st |-> st]}
  ELSE CASE st.step = 0 -> {[r |-> "some", o |-> ChMsg(P, s), i |-> NoMsg, st |-> [st EXCEPT !.step = 2]]}
    [] st.step = 1 -> {[r |-> "some", o |-> ChMsg(P, s), i |-> NoMsg, st |-> [st EXCEPT !.step = 3, !.m = m]]}
    [] st.step = 2 ->
        IF m.k = "ch"
        THEN ChipPake(P, s, st, ChipPw(P, s, m, <<ChMsg(P, s).f, m.f>>), EmptyMsg)
             \cup (IF IsJunk(m.f[1]) \/ IsJunk(m.f[2]) THEN {ChipRej(st)} ELSE {})
        ELSE {ChipRej(st)}
    [] st.step = 3 ->
        IF st.m.k = "ch"
        THEN ChipPake(P, s, st, ChipPw(P, s, st.m, <<st.m.f, ChMsg(P, s).f>>), m)
             \cup (IF IsJunk(st.m.f[1]) \/ IsJunk(st.m.f[2]) THEN {ChipRej(st)} ELSE {})
        ELSE {ChipRej(st)}
    [] OTHER ->
        {[r |-> o.r, o |-> o.o, i |-> NoMsg, st |-> [st EXCEPT !.pk = o.st]]
         : o \in PakeRun(PakeQ(P, s, st.pw), st.pk, m)}

---------------------------------------------------------------------------
(* Any layer *)
InitState(P) ==
  CASE P.lay = "pake"  -> PakeInit(P.role)
    [] P.lay = "ibke"  -> IbkeInit(P.role)
    [] P.lay = "latke" -> LatkeInit(P)
    [] P.lay = "chip"  -> ChipInit(P)

NewSession(P) == [P |-> P, st |-> InitState(P), out |-> <<>>, inn |-> <<>>, rc |-> <<>>, oa |-> <<>>, evil |-> FALSE]

NoInner(S) == {[r |-> o.r, o |-> o.o, i |-> NoMsg, st |-> o.st] : o \in S}

(* Outcomes of handing message m to session s *)
RunSet(W, s, m, ev, u) ==
  LET P == W[s].P  st == W[s].st IN
  CASE P.lay = "pake"  -> NoInner(PakeRun(PakeQ(P, s, <<"pw", P.pw>>), st, m))
    [] P.lay = "ibke"  -> NoInner(IbkeRun(IbkeQ(P, s), st, m))
    [] P.lay = "latke" -> LatkeRun(W, P, s, st, m, ev, u)
    [] P.lay = "chip"  -> ChipRun(P, s, st, m)

SimSet(W, s) == NoInner(IbkeSim(IbkeQ(W[s].P, s), W[s].st))

(* The world after session s accepted or rejected message m with outcome o *)
Note(S, m, o) ==
  LET rc == IF o.r = "rej" \/ m.k \in {"empty", "none"}
               \/ (S.P.lay = "chip" /\ S.st.step = 0)      \* a CHIP initiator ignores whatever it is started with
            THEN S.rc ELSE Append(S.rc, m)
  IN [S EXCEPT !.st = o.st,
               !.out = IF o.r = "some" THEN Append(@, o.o) ELSE @,
               !.inn = IF o.i.k # "none" THEN Append(@, o.i) ELSE @,
               !.rc = rc,
               !.oa = IF o.r = "some" THEN Append(@, Len(rc)) ELSE @]
After(W, s, m, o) == [W EXCEPT ![s] = Note(@, m, o)]

(* Did the edits ev change what session s sent with outcome o (of the outcomes S0 without edits)? *)
Lied(ev, o, S0) == ev # <<>> /\ o.i.k # "none" /\ ~ \E p \in S0 : p.r = o.r /\ p.i = o.i

(* "y" "n" or "na" (not observable or not constrained) *)
DoneOf(S) ==
  CASE S.P.lay = "ibke" /\ S.st.mix -> "na"
    [] S.P.lay \in {"pake", "ibke"} -> IF S.st.done THEN "y" ELSE "n"
    [] S.P.lay = "latke" -> IF S.st.taint THEN "na" ELSE IF S.st.on /\ S.st.ib.done THEN "y" ELSE "n"
    [] OTHER -> "na"

Finished(S) ==
  CASE S.P.lay \in {"pake", "ibke"} -> S.st.done
    [] S.P.lay = "latke" -> S.st.on /\ S.st.ib.done
    [] OTHER -> S.st.pk.done

(* The result of asking: c = "key" (k, id), "rej", or "any" (not constrained) *)
FinOf(S) ==
  LET P == S.P  st == S.st IN
  CASE P.lay = "pake" ->
        IF st.done THEN [c |-> "key", k |-> st.key, id |-> NoTerm] ELSE [c |-> "rej", k |-> NoKey, id |-> NoTerm]
    [] P.lay = "ibke" ->
        IF st.sim THEN [c |-> "any", k |-> NoKey, id |-> NoTerm]
        ELSE IF st.done THEN [c |-> "key", k |-> st.key, id |-> st.oid]
        ELSE [c |-> "rej", k |-> NoKey, id |-> NoTerm]
    [] P.lay = "latke" ->
        LET x == LatkeFin(P, st) IN [c |-> IF x.k = NoKey THEN "rej" ELSE "key", k |-> x.k, id |-> x.id]
    [] P.lay = "chip" ->
        IF st.taint THEN [c |-> "any", k |-> NoKey, id |-> NoTerm]
        ELSE IF st.pk.done THEN [c |-> "key", k |-> st.pk.key, id |-> NoTerm]
        ELSE [c |-> "rej", k |-> NoKey, id |-> NoTerm]
=============================================================================
