------------------------------- MODULE MCFiles ------------------------------
(***************************************************************************)
(* All short bodies, with and without sections and a namespace: the file   *)
(* which is formatted has the layout which is promised.                    *)
(***************************************************************************)
EXTENDS Files, TLC, Json

CONSTANTS MaxLen, Dump
EscapeImpl(mode, s) == s

VARIABLES secs, ns, hist
vars == <<secs, ns, hist>>

A == <<97>>
Voc == <<T(A), SP, PU, LI, IND(1), IND(-1), REF(1), REG(1)>>
ops == [k \in 1..Len(hist) |-> Voc[hist[k]]]
Secs == {<<>>, << <<A>> >>, << <<A, A>>, <<>> >>, << <<A>>, <<>>, <<A, <<32, 98>>, A>> >>}
Init == secs \in Secs /\ ns \in {<<>>, <<78>>} /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E n \in 1..Len(Voc) : hist' = Append(hist, n) /\ UNCHANGED <<secs, ns>>

Imps == <<<<73>>>>
Cfg == [unit |-> <<32, 32>>, nl |-> <<10>>]
Body == Format(Norm(ops), Plain, Imps, Cfg).out
Promised ==
  LET items == Norm(ops) IN
  (ns = <<>> \/ Regular(items, Body, Imps)) => FileOut(secs, ns, items, Plain, Imps, Cfg).out = FileDecl(secs, ns, Body)

Export == (Dump /\ Len(hist) = MaxLen /\ secs = <<>> /\ ns = <<>>) => PrintT("C" \o ToJson(ops))
=============================================================================
