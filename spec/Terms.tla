------------------------------- MODULE Terms -------------------------------
(* The symbolic algebra of the specification.                               *)
(*                                                                          *)
(* A term is a tuple whose first element is a tag.  Two terms are equal     *)
(* exactly when the byte strings they stand for are (up to negligible       *)
(* probability): hashes, MACs, signatures, group exponentials and keys are  *)
(* free constructors, and every freshly drawn value carries the number of   *)
(* the session that drew it.  Bytes that an adversary made up (flipped,     *)
(* overwritten, random) are <<"jk", action, field>>: equal to nothing else. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}

NoKey  == <<"nokey">>
NoTerm == <<"noterm">>

IsJunk(t) == t[1] \in {"jk", "jz"}

(* Messages: a kind (its wire format) and its fields *)
Msg(k, f)  == [k |-> k, f |-> f]
EmptyMsg   == Msg("empty", <<>>)
NoMsg      == Msg("none", <<>>)
BadMsg(u)  == Msg("bad", << <<"jk", u, 0>> >>)      \* not the length of any message
(* What a simulating peer encrypts: zeros in place of every field *)
ZeroMsg    == Msg("zero", <<>>)

(* The outcome of a step: r = "some" (message o), "none", or "rej"; st = state after *)
Some(k, f, st) == [r |-> "some", o |-> Msg(k, f), st |-> st]
None(st)       == [r |-> "none", o |-> NoMsg, st |-> st]
Rejd(st)       == [r |-> "rej", o |-> NoMsg, st |-> st]

Id(n) == <<"id", n>>
=============================================================================
