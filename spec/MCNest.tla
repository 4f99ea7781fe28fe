------------------------------- MODULE MCNest -------------------------------
(***************************************************************************)
(* All sequences of opening and closing strings and evaluations up to a    *)
(* length: the formatter rejects exactly the ill-nested ones, and renders  *)
(* the others as their nesting demands.                                    *)
(***************************************************************************)
EXTENDS Render, Langs, TLC, Json

CONSTANTS MaxLen, Vocab, Dump

EscapeImpl(mode, s) == EscapeText(mode, s)

VARIABLES hist,     \* numbers of the operations performed
          stack     \* what is open, innermost last: s0 s1 strings, e evaluation

vars == <<hist, stack>>

Voc == CASE Vocab = "nest" -> <<T(<<97>>), OQ(0), OQ(1), CQ, OE, CE>>
         [] Vocab = "nestws" -> <<T(<<97>>), OQ(0), OQ(1), CQ, OE, CE, PU, SP, REF(1)>>
         [] Vocab = "deep" -> <<T(<<97>>), OQ(0), CQ>>
Imps == << <<73>> >>
ops == [i \in 1..Len(hist) |-> Voc[hist[i]]]

InStr(s) == s # <<>> /\ Last(s) \in {"s0", "s1"}
(* the text of a string which is nested in the text of another one *)
Nested(s) == Len(s) > 1 /\ InStr(s) /\ InStr(Front(s))

(* Declarative: is the operation allowed, given what is open? *)
Allowed(s, x) ==
  CASE x.k = "cq" -> InStr(s)
    [] x.k = "ce" -> s # <<>> /\ Last(s) = "e"
    [] x.k = "oe" -> InStr(s) /\ ~Nested(s)
    [] x.k = "oq" -> x.n = 0 \/ ~InStr(s)
    [] OTHER -> TRUE
After(s, x) ==
  CASE x.k \in {"cq", "ce"} -> Front(s)
    [] x.k = "oe" -> Append(s, "e")
    [] x.k = "oq" -> Append(s, IF x.n = 1 THEN "s1" ELSE "s0")
    [] OTHER -> s

Init == hist = <<>> /\ stack = <<>>
Do(n) == /\ Len(hist) < MaxLen
         /\ stack # <<"error">>
         /\ hist' = Append(hist, n)
         /\ stack' = IF Allowed(stack, Voc[n]) THEN After(stack, Voc[n]) ELSE <<"error">>
Next == \E n \in 1..Len(Voc) : Do(n)

L == LangRec("tl")
Cfg == [unit |-> <<32, 32, 32>>, nl |-> <<10>>]
F == Format(ops, L, Imps, Cfg)

Rejected == (F.res = "err") = (stack = <<"error">>)
Complete == stack = <<>> => F.res = "ok" /\ ~F.open
Unclosed == (stack \notin {<<>>, <<"error">>}) => F.open

(* Declarative rendering of well nested streams without whitespace: the    *)
(* end of the group that starts at i.                                      *)
RECURSIVE EndOf(_, _, _)
EndOf(seq, i, depth) ==
  LET d == depth + (IF seq[i].k \in {"oq", "oe"} THEN 1
                    ELSE IF seq[i].k \in {"cq", "ce"} THEN -1 ELSE 0)
  IN IF d = 0 THEN i ELSE EndOf(seq, i + 1, d)

Esc(s) == EscapeText(L.esc, s)
RECURSIVE Code(_), StrBody(_), RawBody(_)
Rest(seq, i) == SubSeq(seq, i + 1, Len(seq))
Body(seq, i) == SubSeq(seq, 2, i - 1)
Code(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET x == Head(seq) IN
  IF x.k = "oq"
  THEN LET z == EndOf(seq, 1, 0)
       IN L.oq[x.n+1] \o StrBody(Body(seq, z)) \o L.cq[x.n+1] \o Code(Rest(seq, z))
  ELSE Txt(x, Imps) \o Code(Tail(seq))
StrBody(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET x == Head(seq) IN
  CASE x.k = "oq" ->
         LET z == EndOf(seq, 1, 0)
         IN Esc(L.oq[1] \o RawBody(Body(seq, z)) \o L.cq[1]) \o StrBody(Rest(seq, z))
    [] x.k = "oe" ->
         LET z == EndOf(seq, 1, 0)
             b == Body(seq, z)
         IN (IF Len(b) = 1 /\ b[1].k = "t" THEN L.ls \o b[1].s \o L.le
             ELSE L.es \o Code(b) \o L.ee) \o StrBody(Rest(seq, z))
    [] x.k = "t" -> Esc(x.s) \o StrBody(Tail(seq))
    [] OTHER -> Txt(x, Imps) \o StrBody(Tail(seq))
RawBody(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET x == Head(seq) IN
  IF x.k = "oq"
  THEN LET z == EndOf(seq, 1, 0)
       IN L.oq[1] \o StrBody(Body(seq, z)) \o L.cq[1] \o RawBody(Rest(seq, z))
  ELSE Txt(x, Imps) \o RawBody(Tail(seq))

NoWsOps == \A i \in 1..Len(hist) : ~IsWs(ops[i])
Renders == (stack = <<>> /\ NoWsOps) => F.out = Code(ops)

Export == (Dump /\ (Len(hist) = MaxLen \/ stack \in {<<>>, <<"error">>})) => PrintT("C" \o ToJson(ops))
=============================================================================
