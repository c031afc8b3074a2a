-------------------------------- MODULE Ibke --------------------------------
(* The five identity-based key exchanges and a mock, one step operator each, *)
(* and their simulated execution.                                            *)
(*                                                                           *)
(* Parameters Q = [t, role, ssid, mk, id, cg, cr, cu, us, fi, fu, s]          *)
(*   mk: the main public key (centre) this session trusts                    *)
(*   id, cg, cu: the identity, issuing centre and user key of its            *)
(*               certificate;  us: the user key it actually uses             *)
(*   fi, fu: the identity and user key the centre issued it for (others than *)
(*        id, cu if the holder altered it)                                   *)
(*   cr: number of the certificate (two sessions may share one)              *)
(* State [step, done, key, oid, sh, sim, v]: v holds what later steps need,  *)
(*   oid is the identity reported, sim is set by simulated steps, mix by     *)
(* real ones after that.                                                    *)
EXTENDS Terms

IbkeInit(role) ==
  [step |-> IF role = "I" THEN 0 ELSE 1, done |-> FALSE, key |-> NoKey, oid |-> NoTerm,
   sh |-> FALSE, sim |-> FALSE, mix |-> FALSE, v |-> <<>>]

IAdv(st) == [st EXCEPT !.step = @ + 2]

IbkeSteps(t) == CASE t = "sd" -> 3 [] t \in {"se", "sq"} -> 5 [] OTHER -> 4
(* Does step k send a message? All but the last do *)
Sends(t, k) == k < IbkeSteps(t) - 1
(* A party is done after its last step: the last two steps of the protocol *)
LastStep(t, k) == k >= IbkeSteps(t) - 2

CSig(cg, id, upk) == <<"csig", cg, id, upk>>

---------------------------------------------------------------------------
(* Fiore-Gennaro with key confirmation.  Both parties compute the same two group elements
   exactly when each one's own (ephemeral, identity, X, issuing centre) is what the other
   received, under the centre the other trusts. The subsession id and the transcript enter
   the final key only. *)
FgX(Q)   == <<"X", Q.cr, Q.fi, Q.cg>>
FgEph(Q) == <<"ge", Q.s>>
FgMine(Q) == <<FgEph(Q), Q.fi, FgX(Q), Q.cg>>
FgKey(K, tr, ssid) == <<"gk", K, tr, ssid>>

FgStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty"
        THEN LET f == <<Q.id, FgX(Q), FgEph(Q)>> IN {Some("fg1", f, [IAdv(st) EXCEPT !.v = <<f>>])}
        ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "fg1"
        THEN LET K == {FgMine(Q), <<m.f[3], m.f[1], m.f[2], Q.mk>>}
                 f == <<Q.id, FgX(Q), FgEph(Q), <<"gm1", K>> >>
                 ok == Some("fg2", f, [IAdv(st) EXCEPT !.v = <<m.f, f, K>>, !.oid = m.f[1]])
             IN IF IsJunk(m.f[2]) \/ IsJunk(m.f[3]) THEN {ok, Rejd(st)} ELSE {ok}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "fg2"
        THEN LET K == {FgMine(Q), <<m.f[3], m.f[1], m.f[2], Q.mk>>}
                 f == << <<"gm0", K>> >>
             IN IF m.f[4] = <<"gm1", K>>
                THEN {Some("fg3", f, [IAdv(st) EXCEPT !.oid = m.f[1], !.done = TRUE,
                                          !.key = FgKey(K, <<st.v[1], m.f, f>>, Q.ssid)])}
                ELSE {Rejd(st)}
        ELSE {Rejd(st)}
    [] st.step = 3 ->
        IF m.k = "fg3" /\ m.f[1] = <<"gm0", st.v[3]>>
        THEN {None([IAdv(st) EXCEPT !.done = TRUE,
                        !.key = FgKey(st.v[3], <<st.v[1], st.v[2], m.f>>, Q.ssid)])}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* HMQV-C with certificates *)
HmEph(Q) == <<"he", Q.s>>
HmCert(Q) == <<Q.id, <<"hu", Q.cu>>, CSig(Q.cg, Q.fi, <<"hu", Q.fu>>)>>
HmView(ei, er, idi, idr, ki, kr, ssid) == <<"hk", ei, er, idi, idr, ki, kr, ssid>>

HmStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty" THEN {Some("hm1", <<HmEph(Q)>> \o HmCert(Q), IAdv(st))} ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "hm1" /\ m.f[4] = CSig(Q.mk, m.f[2], m.f[3])
        THEN LET view == HmView(m.f[1], HmEph(Q), m.f[2], Q.id, m.f[3], <<"hu", Q.us>>, Q.ssid)
                 ok == Some("hm2", <<HmEph(Q), <<"hm1", view>> >> \o HmCert(Q),
                            [IAdv(st) EXCEPT !.v = view, !.oid = m.f[2]])
             IN IF IsJunk(m.f[1]) THEN {ok, Rejd(st)} ELSE {ok}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "hm2" /\ m.f[5] = CSig(Q.mk, m.f[3], m.f[4])
        THEN LET view == HmView(HmEph(Q), m.f[1], Q.id, m.f[3], <<"hu", Q.us>>, m.f[4], Q.ssid)
             IN IF m.f[2] = <<"hm1", view>>
                THEN {Some("hm3", << <<"hm0", view>> >>,
                           [IAdv(st) EXCEPT !.done = TRUE, !.key = view, !.oid = m.f[3]])}
                ELSE {Rejd(st)}
        ELSE {Rejd(st)}
    [] st.step = 3 ->
        IF m.k = "hm3" /\ m.f[1] = <<"hm0", st.v>>
        THEN {None([IAdv(st) EXCEPT !.done = TRUE, !.key = st.v])}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* Signed Diffie-Hellman with certificates. No key confirmation: the responder completes after one message. *)
SdEph(Q) == <<"de", Q.s>>
SdCert(Q) == <<Q.id, <<"sp", Q.cu>>, <<"dp", Q.cu>>, CSig(Q.cg, Q.fi, << <<"sp", Q.fu>>, <<"dp", Q.fu>> >>)>>
SdSig(u, r, ssid, e) == <<"sg", u, r, ssid, e>>
SdMsg(Q, r) == <<SdEph(Q), SdSig(Q.us, r, Q.ssid, SdEph(Q))>> \o SdCert(Q)
SdOk(Q, f, r) ==      \* f = eph, sig, id, sigpk, dhpk, csig
  /\ f[6] = CSig(Q.mk, f[3], <<f[4], f[5]>>)
  /\ f[4][1] = "sp" /\ f[2] = SdSig(f[4][2], r, Q.ssid, f[1])
SdKey(ssid, ei, er, ii, ir, di, dr) == <<"sdk", ssid, ei, er, ii, ir, di, dr>>

SdStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty" THEN {Some("sd", SdMsg(Q, 0), IAdv(st))} ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "sd" /\ SdOk(Q, m.f, 0)
        THEN {Some("sd", SdMsg(Q, 1),
                   [IAdv(st) EXCEPT !.done = TRUE, !.oid = m.f[3],
                        !.key = SdKey(Q.ssid, m.f[1], SdEph(Q), m.f[3], Q.id, m.f[5], <<"dp", Q.us>>)])}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "sd" /\ SdOk(Q, m.f, 1)
        THEN {None([IAdv(st) EXCEPT !.done = TRUE, !.oid = m.f[3],
                        !.key = SdKey(Q.ssid, SdEph(Q), m.f[1], Q.id, m.f[3], <<"dp", Q.us>>, m.f[5])])}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* SIGMA-R over a KEM (Ed25519 and Dilithium certificates alike). v = na, nb, pk, ct, ss *)
SgCert(Q) == <<Q.id, <<"gp", Q.cu>>, CSig(Q.cg, Q.fi, <<"gp", Q.fu>>)>>
SgSig(u, r, n, ssid, pk, ct, cert) == <<"gs", u, r, n, ssid, pk, ct, cert>>
SgMac(ss, r, id) == <<"mac", ss, r, id>>
SgOk(Q, ss, c, r, n, v) ==       \* c = sig, mac, cert
  LET cert == c[3] IN
  /\ cert[3] = CSig(Q.mk, cert[1], cert[2])
  /\ cert[2][1] = "gp"
  /\ c[1] = SgSig(cert[2][2], r, n, Q.ssid, v[3], v[4], cert)
  /\ c[2] = SgMac(ss, r, cert[1])

SgStep(Q, st, m) ==
  CASE st.step = 0 ->
        IF m.k = "empty" THEN {Some("sg1", << <<"na", Q.s>>, <<"kp", Q.s>> >>, IAdv(st))} ELSE {Rejd(st)}
    [] st.step = 1 ->
        IF m.k = "sg1"
        THEN LET ss == <<"ss", Q.s>>
                 nb == <<"nb", Q.s>>
                 ct == <<"kct", m.f[2], ss>>
             IN {Some("sg2", <<nb, ct>>, [IAdv(st) EXCEPT !.v = <<m.f[1], nb, m.f[2], ct, ss>>])}
        ELSE {Rejd(st)}
    [] st.step = 2 ->
        IF m.k = "sg2"
        THEN LET pk == <<"kp", Q.s>>
                 ss == IF m.f[2][1] = "kct" /\ m.f[2][2] = pk THEN m.f[2][3] ELSE <<"ssj", Q.s>>
                 sig == SgSig(Q.us, 0, m.f[1], Q.ssid, pk, m.f[2], SgCert(Q))
             IN {Some("ae", << <<"ae", <<"ka", ss>>, <<sig, SgMac(ss, 0, Q.id), SgCert(Q)>>, Q.s>> >>,
                      [IAdv(st) EXCEPT !.v = << <<"na", Q.s>>, m.f[1], pk, m.f[2], ss>>])}
        ELSE {Rejd(st)}
    [] st.step = 3 ->
        LET ss == st.v[5] IN
        IF m.k = "ae" /\ m.f[1][1] = "ae" /\ m.f[1][2] = <<"ka", ss>>
           /\ SgOk(Q, ss, m.f[1][3], 0, st.v[2], st.v)
        THEN LET sig == SgSig(Q.us, 1, st.v[1], Q.ssid, st.v[3], st.v[4], SgCert(Q))
             IN {Some("ae", << <<"ae", <<"kb", ss>>, <<sig, SgMac(ss, 1, Q.id), SgCert(Q)>>, Q.s>> >>,
                      [IAdv(st) EXCEPT !.done = TRUE, !.key = <<"sgk", ss>>, !.oid = m.f[1][3][3][1]])}
        ELSE {Rejd(st)}
    [] st.step = 4 ->
        LET ss == st.v[5] IN
        IF m.k = "ae" /\ m.f[1][1] = "ae" /\ m.f[1][2] = <<"kb", ss>>
           /\ SgOk(Q, ss, m.f[1][3], 1, st.v[1], st.v)
        THEN {None([IAdv(st) EXCEPT !.done = TRUE, !.key = <<"sgk", ss>>, !.oid = m.f[1][3][3][1]])}
        ELSE {Rejd(st)}
    [] OTHER -> {Rejd(st)}

---------------------------------------------------------------------------
(* The mock: three random messages, accepts anything that is not empty *)
MiStep(Q, st, m) ==
  IF st.step > 3 \/ (st.step = 0) # (m.k = "empty") THEN {Rejd(st)}
  ELSE LET s2 == [IAdv(st) EXCEPT !.done = LastStep("mi", st.step),
                     !.key = <<"mik">>, !.oid = <<"id", 99>>]
       IN IF Sends("mi", st.step) THEN {Some("mi", << <<"mi", Q.s, st.step>> >>, s2)} ELSE {None(s2)}

---------------------------------------------------------------------------
(* The fields a message of zeros has at each step *)
ZeroFields(t, k) ==
  CASE t = "fg" -> <<"", 3, 4, 1>>[k + 1]
    [] t = "hm" -> <<"", 4, 5, 1>>[k + 1]
    [] t = "sd" -> 6
    [] t \in {"se", "sq"} -> <<"", 2, 2, 1, 1>>[k + 1]
    [] OTHER -> 1
ZeroKind(t, k) ==
  CASE t = "fg" -> <<"empty", "fg1", "fg2", "fg3">>[k + 1]
    [] t = "hm" -> <<"empty", "hm1", "hm2", "hm3">>[k + 1]
    [] t = "sd" -> "sd"
    [] t \in {"se", "sq"} -> <<"empty", "sg1", "sg2", "ae", "ae">>[k + 1]
    [] OTHER -> "mi"
Unzero(Q, st, m) ==
  IF m.k # "zero" THEN m
  ELSE IF st.step = 0 \/ st.step >= IbkeSteps(Q.t) THEN Msg("bad", << <<"jz", Q.s, 0>> >>)
  ELSE Msg(ZeroKind(Q.t, st.step), [j \in 1..ZeroFields(Q.t, st.step) |-> <<"jz", Q.s, j>>])

IbkeStep0(Q, st, m) ==
  CASE Q.t = "fg" -> FgStep(Q, st, m)
    [] Q.t = "hm" -> HmStep(Q, st, m)
    [] Q.t = "sd" -> SdStep(Q, st, m)
    [] Q.t \in {"se", "sq"} -> SgStep(Q, st, m)
    [] Q.t = "mi" -> MiStep(Q, st, m)

(* Real steps after simulated ones: no caller does that, nothing is said about it *)
IbkeRun(Q, st, m) ==
  IF st.sim
  THEN LET s2 == [st EXCEPT !.mix = TRUE]
       IN {Rejd(s2), None(s2), Some("bad", << <<"jm", Q.s>> >>, s2)}
  ELSE
  LET n == IbkeStep0(Q, st, Unzero(Q, st, m))
      nn == {IF o.r = "rej" THEN Rejd([o.st EXCEPT !.sh = TRUE]) ELSE o : o \in n}
  IN IF st.sh /\ ~ \E o \in nn : o.r = "rej" THEN nn \cup {Rejd(st)} ELSE nn

(* A simulated step: the same shape as the real one *)
IbkeSim(Q, st) ==
  IF st.mix THEN {Rejd(st), None(st), [r |-> "some", o |-> NoMsg, st |-> st]}
  ELSE IF st.step >= IbkeSteps(Q.t) THEN {Rejd(st)}
  ELSE LET s2 == [IAdv(st) EXCEPT !.sim = TRUE, !.done = LastStep(Q.t, st.step)]
       IN IF Sends(Q.t, st.step) THEN {[r |-> "some", o |-> NoMsg, st |-> s2]} ELSE {None(s2)}
=============================================================================
