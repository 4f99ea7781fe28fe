------------------------------- MODULE MCHooks ------------------------------
(***************************************************************************)
(* All sequences of items up to a length: a language is asked to open and  *)
(* close strings and evaluations in a properly nested way, is given the    *)
(* text of strings only inside of them, and every reference exactly once   *)
(* and in order, and what it writes is the output.                         *)
(***************************************************************************)
EXTENDS Hooks, Langs, TLC, Json

CONSTANTS MaxLen, Vocab, Dump

EscapeImpl(mode, s) == EscapeText(mode, s)

VARIABLES hist

Voc == CASE Vocab = "nest" -> <<T(<<97>>), OQ(0), OQ(1), CQ, OE, CE, REF(1)>>
         [] Vocab = "ws" -> <<T(<<97>>), OQ(0), OQ(1), CQ, OE, CE, REF(2), SP, LI>>
Imps == << <<73>>, <<66, 74>> >>
ops == [i \in 1..Len(hist) |-> Voc[hist[i]]]

L(l) == LangRec(l)
Cfg == [unit |-> <<32, 32, 32>>, nl |-> <<10>>]
F(o, l) == Format(o, L(l), Imps, Cfg)
E(o, l) == Hooks(o, L(l), Imps, Cfg)
Bad(o) == F(o, "tr").res = "err"

Init == hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E n \in 1..Len(Voc) : hist' = Append(hist, n)
\* nothing happens after an error
Bound == hist # <<>> => ~Bad(Front(ops))

Langs2 == {"tr", "td"}

(* what is open after events; <<"bad">> if they are not properly nested *)
Opened(ev) ==
  FoldLeft(LAMBDA st, e :
    LET top == IF st = <<>> THEN "" ELSE Last(st) IN
    IF st = <<"bad">> THEN st
    ELSE CASE e.h = "open" -> Append(st, IF e.n = 1 THEN "s1" ELSE "s0")
           [] e.h = "start" -> IF top \in {"s0", "s1"} THEN Append(st, "e") ELSE <<"bad">>
           [] e.h = "close" -> IF top = (IF e.n = 1 THEN "s1" ELSE "s0") THEN Front(st) ELSE <<"bad">>
           [] e.h = "end" -> IF top = "e" THEN Front(st) ELSE <<"bad">>
           [] e.h \in {"text", "lit"} -> IF top \in {"s0", "s1"} THEN st ELSE <<"bad">>
           [] e.h = "code" -> IF top \in {"s0", "s1"} /\ Len(st) = 1 THEN <<"bad">> ELSE st
           [] OTHER -> st, <<>>, ev)

Nested == \A l \in Langs2 : LET s == Opened(E(ops, l)) IN
            s # <<"bad">> /\ (~Bad(ops) => (s = <<>>) = ~F(ops, l).open)
Refs == \A l \in Langs2 : ~Bad(ops) =>
          [i \in 1..Len(SelectSeq(E(ops, l), LAMBDA e : e.h = "item")) |->
             SelectSeq(E(ops, l), LAMBDA e : e.h = "item")[i].n]
          = [i \in 1..Len(SelectSeq(ops, LAMBDA x : x.k = "ref")) |->
             SelectSeq(ops, LAMBDA x : x.k = "ref")[i].n]
(* the calls for a part of a stream are a part of the calls *)
Grows == \A l \in Langs2 : \A n \in 0..Len(ops) :
           IsPart(Calls(E(SubSeq(ops, 1, n), l)), Calls(E(ops, l)))
             \/ (n < Len(ops) /\ n > 0 /\ ops[n].k = "oe") \/ (n > 1 /\ ops[n-1].k = "oe")
NoWsOps == \A i \in 1..Len(hist) : ~IsWs(ops[i])
Written == \A l \in Langs2 :
             (NoWsOps /\ ~Bad(ops) /\ ~F(ops, l).open)
               => F(ops, l).out = Realise(E(ops, l), 1, <<>>, L(l), Imps)

Export == (Dump /\ (Len(hist) = MaxLen \/ ~F(ops, "tr").open \/ Bad(ops))) => PrintT("C" \o ToJson(ops))
=============================================================================
