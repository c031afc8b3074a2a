------------------------------- MODULE HashApi ------------------------------
(* The incremental interfaces of the hash functions (pqcrypto-internals): every history of calls on two contexts.      *)
(*   xof   SHAKE and cSHAKE:   init, absorb*, finalize, squeeze*           (bytes)                                       *)
(*   fix   SHA3:               init, absorb*, finalize with the digest                                                   *)
(*   blk   SHAKE in blocks:    absorb once, squeeze whole blocks                                                         *)
(*   md    SHA-2:              init, whole blocks*, finalize with the remaining bytes and the digest                     *)
(* and clone in between.  A context is described twice: by what the caller may rely on (the pieces absorbed, the amount  *)
(* squeezed), and by a buffering machine over blocks of Rate symbols of the kind the code implements; Refines says that  *)
(* the latter always stands for the padded concatenation of the pieces, and emits consecutive output.                    *)
(* Histories go to the harness as scenarios: an operation's length n stands for a class of lengths (see harness/hash.rs) *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt

CONSTANTS MaxOps, Lens, Slots
Rate == 3
Kinds == {"xof", "fix", "blk", "md"}

VARIABLES kind, c, h, out
vars == <<kind, c, h, out>>

Free == [ph |-> "free", d |-> <<>>, o |-> <<>>, oa |-> 0, bl |-> <<>>, buf |-> <<>>, perm |-> 0, left |-> 0, data |-> <<>>, cnt |-> 0]
Init == /\ kind \in Kinds
        /\ c = [s \in 1..Slots |-> Free]
        /\ h = <<>>
        /\ out = [is |-> <<>>, want |-> <<>>]

Id == Len(h) + 1
Op(a, s, n) == [a |-> a, s |-> s, t |-> 0, n |-> n, d |-> <<>>, o |-> <<>>]
Do(op) == h' = Append(h, op)
Quiet == out' = [is |-> <<>>, want |-> <<>>]

(* the buffering machine *)
RECURSIVE Feed(_, _)
Feed(x, ms) ==
  IF Len(x.buf) + Len(ms) >= Rate
  THEN LET k == Rate - Len(x.buf)
       IN Feed([x EXCEPT !.bl = Append(@, x.buf \o SubSeq(ms, 1, k)), !.buf = <<>>], SubSeq(ms, k + 1, Len(ms)))
  ELSE [x EXCEPT !.buf = @ \o ms]
RECURSIVE Emit(_, _, _)
Emit(x, n, acc) ==      \* <<context, symbols>>: symbol <<p, i>> is place i of the state after p permutations
  IF n = 0 THEN <<x, acc>>
  ELSE IF x.left > 0 THEN Emit([x EXCEPT !.left = @ - 1], n - 1, Append(acc, <<x.perm, Rate - x.left>>))
  ELSE Emit([x EXCEPT !.perm = @ + 1, !.left = Rate], n, acc)
Zeros(n) == [i \in 1..n |-> "0"]
PadSponge(x) ==
  LET r == Rate - Len(x.buf)
  IN [x EXCEPT !.bl = Append(@, x.buf \o (IF r = 1 THEN <<"p!">> ELSE <<"p">> \o Zeros(r - 2) \o <<"!">>)), !.buf = <<>>]
PadMd(x) ==             \* a length symbol at the end
  LET l == <<"len", x.cnt>>
      q == Len(x.buf)
  IN IF q + 2 <= Rate THEN [x EXCEPT !.bl = Append(@, x.buf \o <<"p">> \o Zeros(Rate - q - 2) \o <<l>>), !.buf = <<>>]
     ELSE [x EXCEPT !.bl = @ \o <<x.buf \o <<"p">>, Zeros(Rate - 1) \o <<l>>>>, !.buf = <<>>]

Syms(n) == [i \in 1..n |-> <<Id, i>>]
Take(x, n) == LET y == Feed(x, Syms(n)) IN [y EXCEPT !.d = Append(@, Id), !.data = @ \o Syms(n), !.cnt = @ + n]

(* what the caller may rely on *)
Blocks(m) == [i \in 1..(Len(m) \div Rate) |-> SubSeq(m, Rate * (i - 1) + 1, Rate * i)]
Padded(k, m) ==
  LET n == Len(m)
      r == Rate - (n % Rate)
  IN IF k = "md"
     THEN LET z == (2 * Rate - ((n + 2) % Rate)) % Rate IN m \o <<"p">> \o Zeros(z) \o << <<"len", n>> >>
     ELSE m \o (IF r = 1 THEN <<"p!">> ELSE <<"p">> \o Zeros(r - 2) \o <<"!">>)
Want(off, n) == [i \in 1..n |-> <<((off + i - 1) \div Rate) + 1, (off + i - 1) % Rate>>]

Start(s) ==
  /\ c[s].ph \in {"free", "end"} /\ kind # "blk"
  /\ c' = [c EXCEPT ![s] = [Free EXCEPT !.ph = "abs"]]
  /\ Do(Op("init", s, 0)) /\ Quiet
Absorb(s, n) ==
  /\ \/ kind = "blk" /\ c[s].ph \in {"free", "end"}
     \/ kind # "blk" /\ c[s].ph = "abs"
  /\ kind = "md" => n % Rate = 0
  /\ c' = [c EXCEPT ![s] = IF kind = "blk" THEN [PadSponge(Take(Free, n)) EXCEPT !.ph = "sqz"] ELSE Take(@, n)]
  /\ Do(Op("abs", s, n)) /\ Quiet
Finish(s, n) ==
  /\ c[s].ph = "abs" /\ (kind = "md" \/ n = 0)
  /\ LET x == IF kind = "md" THEN PadMd(Take(c[s], n)) ELSE PadSponge(c[s]) IN
     /\ c' = [c EXCEPT ![s] = [x EXCEPT !.ph = IF kind = "xof" THEN "sqz" ELSE "end"]]
     /\ Do([Op("fin", s, n) EXCEPT !.d = x.d])
  /\ Quiet
Squeeze(s, n) ==
  /\ c[s].ph = "sqz"
  /\ kind = "blk" => n % Rate = 0
  /\ LET e == Emit(c[s], n, <<>>) IN
     /\ c' = [c EXCEPT ![s] = [e[1] EXCEPT !.o = Append(@, Id), !.oa = @ + n]]
     /\ out' = [is |-> e[2], want |-> Want(c[s].oa, n)]
  /\ Do([Op("sqz", s, n) EXCEPT !.d = c[s].d, !.o = c[s].o])
Clone(s, t) ==
  /\ s # t /\ c[s].ph \in {"abs", "sqz"} /\ c[t].ph \in {"free", "end"}
  /\ c' = [c EXCEPT ![t] = c[s]]
  /\ Do([Op("clone", s, 0) EXCEPT !.t = t]) /\ Quiet

Next ==
  /\ Len(h) < MaxOps /\ UNCHANGED kind
  /\ \E s \in IF h = <<>> THEN {1} ELSE 1..Slots :
       \/ Start(s) \/ \E n \in Lens : Absorb(s, n) \/ Finish(s, n) \/ Squeeze(s, n)
       \/ \E t \in 1..Slots : Clone(s, t)
Spec == Init /\ [][Next]_vars

Refines ==
  /\ out.is = out.want
  /\ \A s \in 1..Slots :
       LET x == c[s] IN
       /\ x.ph = "abs" => FoldLeft(LAMBDA a, b: a \o b, <<>>, x.bl) \o x.buf = x.data /\ Len(x.buf) < Rate
       /\ x.ph \in {"sqz", "end"} => x.bl = Blocks(Padded(kind, x.data))
(* histories that end with an output *)
Tell ==
  (Len(h) = MaxOps /\ h # <<>> /\ Last(h).a \in {"fin", "sqz"} /\ (kind = "xof" => Last(h).a = "sqz"))
    => PrintT(ToJson([k |-> kind, ops |-> h]))
=============================================================================
