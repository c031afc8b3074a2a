-------------------------------- MODULE Pake --------------------------------
(* The three PAKEs (KC-SPAKE2, CAKE, CPace) and a mock that accepts          *)
(* everything, one step operator each.                                       *)
(*                                                                           *)
(* Parameters  Q = [t, role, ssid, pw, s]: protocol, role, subsession id,    *)
(*             password (a term) and session number.                         *)
(* State       [step, done, key, sh, dead]: initiators do even steps,        *)
(*             responders odd ones.                                          *)
(*   dead: a contribution was processed and found wrong; the one guess this  *)
(*         session allows is used up and nothing is ever accepted again.     *)
(*   sh:   some other input was rejected.  The session may or may not be     *)
(*         usable afterwards; nothing depends on which.                      *)
EXTENDS Terms

PakeInit(role) ==
  [step |-> IF role = "I" THEN 0 ELSE 1, done |-> FALSE, key |-> NoKey, sh |-> FALSE, dead |-> FALSE]

Adv(st) == [st EXCEPT !.step = @ + 2]

---------------------------------------------------------------------------
(* KC-SPAKE2: symmetric SPAKE2 contributions, then a MAC in each direction *)
KcEl(Q)  == <<"kce", Q.s>>
KcKey(Q, ei, er) == <<"kk", Q.pw, Q.ssid, ei, er>>

KcStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty" THEN {Some("kc1", <<KcEl(Q)>>, Adv(st))} ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "kc1"
        THEN LET key == KcKey(Q, m.f[1], KcEl(Q))
                 ok == Some("kc2", <<KcEl(Q), <<"m1", key>> >>, [Adv(st) EXCEPT !.key = key])
             IN IF IsJunk(m.f[1]) THEN {ok, Rejd(st)} ELSE {ok}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "kc2"
        THEN LET key == KcKey(Q, KcEl(Q), m.f[1])
             IN IF m.f[2] = <<"m1", key>>
                THEN {Some("kc3", << <<"m0", key>> >>, [Adv(st) EXCEPT !.key = key, !.done = TRUE])}
                ELSE {Rejd([st EXCEPT !.dead = ~IsJunk(m.f[1])])}
        ELSE {Rejd(st)}
    [] st.step = 3 ->
        IF m.k = "kc3" /\ m.f[1] = <<"m0", st.key>>
        THEN {None([Adv(st) EXCEPT !.done = TRUE])}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* CAKE: an ephemeral KEM key and an encapsulation to it, each under an ideal
   cipher keyed by password, subsession id and position *)
CakePk(Q, c1) ==   \* the KEM key the responder decrypts: the sender's, or an unrelated one
  IF c1[1] = "c1" /\ c1[2] = Q.pw /\ c1[3] = Q.ssid THEN <<"pk", c1[4]>> ELSE <<"jp", Q.s>>

CkStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty" THEN {Some("ck1", << <<"c1", Q.pw, Q.ssid, Q.s>> >>, Adv(st))} ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "ck1"
        THEN {Some("ck2", << <<"c2", Q.pw, Q.ssid, CakePk(Q, m.f[1]), Q.s>> >>,
                   [Adv(st) EXCEPT !.key = <<"ckk", Q.s>>, !.done = TRUE])}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "ck2"
        THEN LET c == m.f[1]
                 mine == c[1] = "c2" /\ c[2] = Q.pw /\ c[3] = Q.ssid /\ c[4] = <<"pk", Q.s>>
             IN {None([Adv(st) EXCEPT !.key = IF mine THEN <<"ckk", c[5]>> ELSE <<"ckj", Q.s>>, !.done = TRUE])}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* CPace: a session id and one Diffie-Hellman contribution each *)
CpKey(Q, sid, ya, yb) == <<"cpk", Q.pw, Q.ssid, sid, ya, yb>>

CpStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty"
        THEN {Some("cp1", << <<"sid", Q.s>>, <<"ya", Q.s>> >>, Adv(st))}
        ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "cp1"
        THEN LET ok == Some("cp2", << <<"yb", Q.s>> >>,
                       [Adv(st) EXCEPT !.key = CpKey(Q, m.f[1], m.f[2], <<"yb", Q.s>>), !.done = TRUE])
             IN IF IsJunk(m.f[2]) THEN {ok, Rejd(st)} ELSE {ok}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "cp2"
        THEN LET ok == None([Adv(st) EXCEPT !.key = CpKey(Q, <<"sid", Q.s>>, <<"ya", Q.s>>, m.f[1]), !.done = TRUE])
             IN IF IsJunk(m.f[1]) THEN {ok, Rejd(st)} ELSE {ok}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* The mock: accepts any message of its format; the key is a function of the password alone,
   so that whatever is built on top has to provide every other guarantee itself *)
MpStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty" THEN {Some("mp", << <<"mx", Q.s>> >>, Adv(st))} ELSE {Rejd(st)}
    [] st.step \in {1, 2} ->
        IF m.k = "mp"
        THEN LET s2 == [Adv(st) EXCEPT !.key = <<"mpk", Q.pw>>, !.done = TRUE]
             IN IF st.step = 1 THEN {Some("mp", << <<"mx", Q.s>> >>, s2)} ELSE {None(s2)}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
PakeStep0(Q, st, m) ==
  CASE Q.t = "kc" -> KcStep(Q, st, m)
    [] Q.t = "ck" -> CkStep(Q, st, m)
    [] Q.t = "cp" -> CpStep(Q, st, m)
    [] Q.t = "mp" -> MpStep(Q, st, m)

(* The set of allowed outcomes, at most one per kind of result *)
PakeRun(Q, st, m) ==
  IF st.dead THEN {Rejd(st)}
  ELSE LET n == PakeStep0(Q, st, m)
           nn == {IF o.r = "rej" THEN Rejd([o.st EXCEPT !.sh = TRUE]) ELSE o : o \in n}
       IN IF st.sh /\ ~ \E o \in nn : o.r = "rej" THEN nn \cup {Rejd(st)} ELSE nn

PakeSteps(t) == IF t = "kc" THEN 4 ELSE 3
=============================================================================
