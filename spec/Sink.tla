-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* Writing an output (a sequence of bytes) to a sink which accepts data in *)
(* pieces, interrupts or fails. The formatter offers chunks in order; each *)
(* chunk is offered until it was accepted completely.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Sink0 == [pos |-> 0, failed |-> FALSE]

(* What the sink answers to an offer of len bytes. *)
Answer(s, a, len, n) ==
  CASE a = "acc" -> [s EXCEPT !.pos = @ + n]
    [] a = "int" -> s
    [] a \in {"err", "zero", "block"} -> [s EXCEPT !.failed = TRUE]
    [] a = "flush" -> s

(* May this be offered to the sink? Nothing is offered after a failure,    *)
(* and never more than what is left of the output.                         *)
MayOffer(s, a, len, n, total) ==
  /\ ~s.failed
  /\ n <= len
  /\ s.pos + len <= total

Result(s) == IF s.failed THEN "err" ELSE "ok"
Complete(s, total) == s.failed \/ s.pos = total

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536
  THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(text) ==
  IF \A k \in 1..Len(text) : text[k] < 128 THEN text
  ELSE FoldLeft(LAMBDA a, c : a \o Utf8Char(c), <<>>, text)
=============================================================================
