-------------------------------- MODULE Langs -------------------------------
(***************************************************************************)
(* How the languages delimit strings and evaluations. tl, tl2, tm, tr  *)
(* and td are test languages of the harnesses: tl, tm and tr override      *)
(* everything, td only evaluations.                                        *)
(* Real languages are only used here with text which needs no escapes (see *)
(* Strings for those).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

DQ == <<34>>
Plain == [oq |-> <<DQ, DQ>>, cq |-> <<DQ, DQ>>, es |-> <<>>, ee |-> <<>>,
          ls |-> <<>>, le |-> <<>>, esc |-> "id", nq |-> <<DQ, DQ>>]

LangRec(l) ==
  CASE l = "tl" ->
         [oq |-> << <<60>>, <<60, 60>> >>, cq |-> << <<62>>, <<62, 62>> >>,
          es |-> <<123>>, ee |-> <<125>>, ls |-> <<61>>, le |-> <<61>>, esc |-> "bs",
          nq |-> << <<60>>, <<62>> >>]
    [] l = "tr" ->
         [oq |-> << <<60>>, <<60, 60>> >>, cq |-> << <<62>>, <<62, 62>> >>,
          es |-> <<123>>, ee |-> <<125>>, ls |-> <<61>>, le |-> <<61>>, esc |-> "bs",
          nq |-> << <<60>>, <<62>> >>]
    [] l = "td" -> [dl |-> TRUE] @@ [Plain EXCEPT !.es = <<123>>, !.ee = <<125>>, !.ls = <<123>>, !.le = <<125>>]
    [] l = "tm" ->
         [oq |-> << <<60>>, <<60, 60>> >>, cq |-> << <<62>>, <<62, 62>> >>,
          es |-> <<123>>, ee |-> <<125>>, ls |-> <<123>>, le |-> <<125>>, esc |-> "bs",
          nq |-> << <<60>>, <<62>> >>]
    [] l = "js" ->
         [Plain EXCEPT !.oq = <<DQ, <<96>>>>, !.cq = <<DQ, <<96>>>>,
                       !.es = <<36, 123>>, !.ee = <<125>>, !.ls = <<36, 123>>, !.le = <<125>>,
                       !.esc = "cq"]
    [] l = "dart" ->
         [Plain EXCEPT !.es = <<36, 123>>, !.ee = <<125>>, !.ls = <<36>>, !.esc = "cq"]
    [] l = "tl2" -> Plain
    [] OTHER -> [Plain EXCEPT !.esc = "cq"]

(* bs: a backslash before every character; cq: before quotes and backslashes, and an escape for line breaks (real languages)  *)
EscapeChar(mode, c) ==
  IF mode = "bs" \/ (mode = "cq" /\ c \in {34, 92}) THEN <<92, c>>
  ELSE IF mode = "cq" /\ c = 10 THEN <<92, 110>>
  ELSE IF mode = "cq" /\ c = 9 THEN <<92, 116>>
  ELSE IF mode = "cq" /\ c = 13 THEN <<92, 114>>
  ELSE <<c>>
EscapeText(mode, s) ==
  IF mode = "id" THEN s ELSE FlattenSeq([i \in 1..Len(s) |-> EscapeChar(mode, s[i])])
=============================================================================
