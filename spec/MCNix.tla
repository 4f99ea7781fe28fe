-------------------------------- MODULE MCNix -------------------------------
(***************************************************************************)
(* All small graphs of Nix imports: the worklist of the implementation     *)
(* finds exactly what is used, and what is declared for it covers it.      *)
(* Exports the graphs.                                                     *)
(***************************************************************************)
EXTENDS Nix, TLC, Json

CONSTANTS N, Dump
EscapeImpl(mode, s) == s

VARIABLES imps, prog, done
vars == <<imps, prog, done>>

C(k) == <<97 + k>>
Path(k) == <<112, 48 + (k % 2), 46, 113>>
Op(k, n) == [k |-> k, n |-> n, s |-> <<>>, how |-> "", c |-> <<>>]
Prog(S) == [k \in 1..Len(SetToSeq(S)) |-> Op(IF k % 2 = 0 THEN "reg" ELSE "ref", SetToSeq(S)[k])]
Kinds(k) ==
  {[f |-> "argument", a |-> <<C(k)>>, v |-> <<>>],
   [f |-> "inherit", a |-> <<Path(k), C(k)>>, v |-> <<>>],
   [f |-> "with", a |-> <<Path(k), C(k)>>, v |-> <<>>]}
  \cup {[f |-> "variable", a |-> <<C(k)>>, v |-> Prog(S)] : S \in SUBSET (1..(k-1))}

Init == imps = <<>> /\ prog = <<>> /\ done = FALSE
Next == \/ /\ Len(imps) < N
           /\ \E x \in Kinds(Len(imps) + 1) : imps' = Append(imps, x)
           /\ UNCHANGED <<prog, done>>
        \/ /\ Len(imps) = N /\ ~done
           /\ \E S \in SUBSET (1..N) : prog' = Prog(S)
           /\ done' = TRUE
           /\ UNCHANGED imps

(* As implemented: a list which is extended by the imports of the values   *)
(* of variables while it is walked.                                        *)
RECURSIVE Work(_, _)
Work(list, n) ==
  IF n > Len(list) THEN list
  ELSE Work(list \o (IF imps[list[n]].f = "variable" THEN Imports(imps[list[n]].v) ELSE <<>>), n + 1)

Found == done => RangeOf(Work(Imports(prog), 1)) = Uses(prog, imps)
Complete == done => Covered(Uses(prog, imps), imps)
Export == (Dump /\ done) => PrintT("C" \o ToJson([imps |-> imps, prog |-> prog]))
=============================================================================
