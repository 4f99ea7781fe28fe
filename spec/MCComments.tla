----------------------------- MODULE MCComments -----------------------------
(***************************************************************************)
(* All short programs of text, whitespace and comments: what is rendered   *)
(* reads as the comments which were given. Exports the programs.           *)
(***************************************************************************)
EXTENDS Comments, TLC, Json

CONSTANTS MaxLen, Kind, Dump
EscapeImpl(mode, s) == s

VARIABLE hist

A == <<97>>
Op(k, n, s, c) == [k |-> k, n |-> n, s |-> s, how |-> "", c |-> c]
Voc == <<Op("t", 0, A, <<>>), Op("sp", 0, <<>>, <<>>), Op("pu", 0, <<>>, <<>>), Op("li", 0, <<>>, <<>>),
         Op("ind", 1, <<>>, <<>>), Op("ind", -1, <<>>, <<>>),
         Op("comment", Kind, <<>>, <<>>), Op("comment", Kind, <<>>, <<<<98>>>>),
         Op("comment", Kind, <<>>, <<<<>>, <<99>>>>)>>
Prog == [i \in 1..Len(hist) |-> Voc[hist[i]]]

Init == hist = <<>>
Next == Len(hist) < MaxLen /\ \E n \in 1..Len(Voc) : hist' = Append(hist, n)

Dummy == [oq |-> <<<<34>>, <<34>>>>, cq |-> <<<<34>>, <<34>>>>,
          es |-> <<>>, ee |-> <<>>, ls |-> <<>>, le |-> <<>>, esc |-> "id", nq |-> <<<<34>>, <<34>>>>]
Cfg == [unit |-> <<32, 32>>, nl |-> <<10>>]
Reads ==
  Separated(Prog) =>
    LET m == Format(Norm(Flat(Prog)), Dummy, <<>>, Cfg)
    IN m.res = "ok" /\ Read(LinesOf(m.out, Cfg)) = Given(Prog, 2)

Export == (Dump /\ Len(hist) = MaxLen) => PrintT("C" \o ToJson(Prog))
=============================================================================
