----------------------------- MODULE PrimTrace -----------------------------
(* Checks recorded operations on the primitives against Prim.tla. A line is  *)
(* one execution: ops (what was done) and obs (result, lengths and tokens of *)
(* the outputs: numbers by order of first appearance in the execution, -1    *)
(* for a value a fresh output of an earlier execution already had).          *)
EXTENDS Prim, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
Items == 2 .. Len(Lines)
VARIABLES i, l, H, tm, mx, free
vars == <<i, l, H, tm, mx, free>>

Rep(cls, info) == PrintT(<<"MISMATCH", i, l + 1, cls, info>>)
Check(cls, cond, info) == IF cond THEN TRUE ELSE Rep(cls, info)

Init == i \in Items /\ l = 0 /\ H = <<>> /\ tm = {} /\ mx = 0 /\ free = FALSE

(* one byte string: term t, token k; S: the pairs known so far, m the largest token so far *)
(* operations the harness itself performs: nothing to learn from their results *)
Ours == {"fl", "ma", "msg", "sp", "jn", "cc"}
CheckWord(S, m, t, k) ==
  LET same == {p \in S : p[1] = t}
      eq   == {p \in S : p[2] = k} IN
  IF same # {}
  THEN Check("eq-:" \o t[1] \o ":" \o Lines[i].ops[l + 1].o, \E p \in same : p[2] = k, <<"two values that must be equal differ", t[1]>>)
  ELSE IF t[1] = "any" \/ Lines[i].ops[l + 1].o \in Ours THEN TRUE
  ELSE /\ Check("new:" \o t[1], k # 0 - 1, <<"a value seen in another execution", t[1]>>)
       /\ Check("eq+:" \o t[1], \A p \in eq : Coincide(p[1], t), <<"two values that must differ are equal", t[1], {p[1][1] : p \in eq}>>)

MaxOf(m, q) == FoldLeft(LAMBDA a, k: IF k > a THEN k ELSE a, m, q)

(* a block: known, then the same words; an output of the cipher (or a new plaintext): every word new *)
CheckBlock(S, m, t, q) ==
  LET same == {p \in S : p[1] = t} IN
  IF same # {} THEN Check("eq-:" \o t[1] \o ":" \o Lines[i].ops[l + 1].o, \E p \in same : p[2] = q, <<"two blocks that must be equal differ", t[1]>>)
  ELSE IF t[1] = "f" THEN TRUE
  ELSE Check("eq+:" \o t[1], (\A j \in 1..Len(q) : q[j] = m + j),
             <<"words that must be new are not", t[1], {j \in 1..Len(q) : q[j] <= m}>>)

Blocks == Lines[i].p = "wbc"
CheckObj(S, m, ob, o) ==
  /\ Check("len:" \o ob.ty, ob.len < 0 \/ o.l < 0 \/ o.l = ob.len, <<"length", o.l, "expected", ob.len>>)
  /\ IF Blocks THEN CheckBlock(S, m, ob.ts[1], o.t)
     ELSE IF Len(o.t) # Len(ob.ts) THEN Check("len:" \o ob.ty, FALSE, <<"length", o.l, "expected", ob.len>>)
     ELSE \A j \in 1..Len(o.t) : CheckWord(S, m, ob.ts[j], o.t[j])
PairsOf(ob, o) == IF Blocks THEN {<<ob.ts[1], o.t>>}
                  ELSE IF Len(o.t) # Len(ob.ts) THEN {} ELSE {<<ob.ts[j], o.t[j]>> : j \in 1..Len(o.t)}

RECURSIVE Objs(_, _, _, _, _)
Objs(S, m, obs, os, n) ==
  IF n > Len(obs) THEN TRUE
  ELSE CheckObj(S, m, obs[n], os[n]) /\ Objs(TLCEval(S \cup PairsOf(obs[n], os[n])), MaxOf(m, os[n].t), obs, os, n + 1)

Next ==
  /\ l < Len(Lines[i].ops)
  /\ l' = l + 1 /\ i' = i
  /\ LET op == Lines[i].ops[l + 1]
         ob == Lines[i].obs[l + 1] IN
     IF free THEN UNCHANGED <<H, tm, mx, free>>
     ELSE LET st == Step(Lines[i].p, H, op, Lines[i].set) IN
          /\ H' = H \o st.objs
          /\ IF st.r # ob.r \/ Len(st.objs) # Len(ob.o)
             THEN /\ Rep((IF st.r = "rej" THEN "r+:" ELSE "r-:") \o op.o, <<op.o, "result", ob.r, "expected", st.r>>)
                  /\ UNCHANGED <<tm, mx>> /\ free' = (st.objs # <<>> \/ ob.o # <<>>)
             ELSE /\ Objs(tm, mx, st.objs, ob.o, 1)
                  /\ tm' = tm \cup UNION {PairsOf(st.objs[n], ob.o[n]) : n \in 1..Len(ob.o)}
                  /\ mx' = FoldLeft(LAMBDA a, o: MaxOf(a, o.t), mx, ob.o)
                  /\ UNCHANGED free
Spec == Init /\ [][Next]_vars
Stats == PrintT(<<"STATES", TLCGet("stats").distinct>>)
=============================================================================
