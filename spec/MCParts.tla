------------------------------ MODULE MCParts -------------------------------
(***************************************************************************)
(* Interpolated strings: all sequences of few parts with all gaps between  *)
(* them. The text of the string is what is written in the source, with     *)
(* spaces as they are there and evaluated parts replaced.                  *)
(***************************************************************************)
EXTENDS Template, TLC, Json

CONSTANTS MaxParts, Gaps3, Kinds, Dump

VARIABLES parts, tail   \* parts: sequence of <<kind, gap before>>
vars == <<parts, tail>>
Init == parts = <<>> /\ tail \in Gaps3
Next == Len(parts) < MaxParts /\ \E k \in Kinds, g \in Gaps3 : parts' = Append(parts, <<k, g>>) /\ UNCHANGED tail

Source(k) == CASE k = "tok" -> 1 [] k = "esc" -> 2 [] k = "constlit" -> 13 [] k = "id" -> 2 [] k = "ev" -> 5
Starts == FoldLeft(LAMBDA a, i : [at |-> a.at + parts[i][2] + Source(parts[i][1]),
                                  from |-> Append(a.from, a.at + parts[i][2])],
                   [at |-> 9, from |-> <<>>], [i \in 1..Len(parts) |-> i])
Part(i) ==
  LET k == parts[i][1]
      pos == [a |-> At(1, Starts.from[i]), b |-> At(1, Starts.from[i] + Source(k))]
  IN pos @@ (CASE k = "tok" -> [k |-> "tx", s |-> <<43>>]
               [] k = "esc" -> [k |-> "tx", s |-> <<36>>]
               [] k = "constlit" -> [k |-> "tx", s |-> <<120>>]
               [] k = "id" -> [k |-> "id", s |-> <<97>>]
               [] k = "ev" -> [k |-> "ev", body |->
                     [els |-> <<[k |-> "expr", e |-> [x |-> "ev", n |-> i, c |-> <<[x |-> "i", n |-> 1]>>],
                                 a |-> At(1, Starts.from[i] + 2), b |-> At(1, Starts.from[i] + 4)]>>,
                      span |-> TRUE, a |-> At(1, Starts.from[i] + 2), b |-> At(1, Starts.from[i] + 4)]])
Str == [k |-> "str", parts |-> [i \in 1..Len(parts) |-> Part(i)], a |-> At(1, 1), ia |-> At(1, 9),
        ib |-> At(1, Starts.at + tail), b |-> At(1, Starts.at + tail + 1)]

(* What is written: code points, evaluations as negative numbers. *)
Pad(n) == [i \in 1..n |-> 32]
Written == FlattenSeq([i \in 1..Len(parts) |->
             Pad(parts[i][2]) \o (CASE parts[i][1] = "tok" -> <<43>> [] parts[i][1] = "esc" -> <<36>>
                                    [] parts[i][1] = "constlit" -> <<120>> [] OTHER -> <<-i>>)]) \o Pad(tail)

R == Elem(Str, <<>>)
Inside == SubSeq(R.ops, 2, Len(R.ops) - 1)
\* read back: evaluations are numbered by their order
EvAt == SelectSeq([i \in 1..Len(parts) |-> i], LAMBDA i : parts[i][1] \in {"id", "ev"})
Read == FoldLeft(LAMBDA a, o :
          CASE o.k = "oe" -> [a EXCEPT !.n = @ + 1, !.in = TRUE, !.out = Append(@, -EvAt[a.n + 1])]
            [] o.k = "ce" -> [a EXCEPT !.in = FALSE]
            [] o.k = "t" /\ ~a.in -> [a EXCEPT !.out = @ \o o.s]
            [] OTHER -> a,
          [n |-> 0, in |-> FALSE, out |-> <<>>], Inside)

TextKept == Read.out = Written /\ ~Read.in
Marked == R.ops[1] = OQ(IF EvAt = <<>> THEN 0 ELSE 1) /\ Last(R.ops) = CQ
NoSpaceItems == \A i \in 1..Len(R.ops) : R.ops[i].k # "sp"
InOrder == R.log = SelectSeq([i \in 1..Len(parts) |-> i], LAMBDA i : parts[i][1] = "ev")
Export == (Dump /\ (Len(parts) = MaxParts \/ parts = <<>>)) => PrintT("C" \o ToJson([parts |-> parts, tail |-> tail]))
=============================================================================
