------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Exhaustive exploration of all sequences of building operations up to a  *)
(* length: the building machine keeps its guarantees, the linked list of   *)
(* imports is complete, and the formatter (a machine with pending          *)
(* whitespace) agrees with the declarative rendering.                      *)
(***************************************************************************)
EXTENDS Render, TLC, Json

CONSTANTS MaxLen, Vocab, Dump

EscapeImpl(mode, s) == s

\* (to be used for MaxInd) 
Small == 2

VARIABLES hist,    \* numbers of the operations performed
          items, links

vars == <<hist, items, links>>

A == <<97>>
Voc == CASE Vocab = "core" ->
              <<T(A), SP, PU, LI, IND(1), IND(-1), T(<<>>), REF(1), REG(1)>>
         [] Vocab = "ws" ->
              <<T(A), SP, PU, LI, IND(1), IND(-1)>>
         [] Vocab = "ind" ->
              <<T(A), PU, LI, IND(1), IND(-1), IND(2), IND(-3)>>
         [] Vocab = "lang" ->
              <<T(A), PU, REF(1), REG(1), REF(2), REG(2)>>

Imps == <<<<73>>, <<>>>>

ops == [i \in 1..Len(hist) |-> Voc[hist[i]]]

Init == hist = <<>> /\ items = <<>> /\ links = Links0

Do(n) == /\ Len(hist) < MaxLen
         /\ hist' = Append(hist, n)
         /\ items' = Step(items, Voc[n])
         /\ links' = StepLinks(links, items, Voc[n])

Next == \E n \in 1..Len(Voc) : Do(n)
Spec0 == Init /\ [][Next]_vars

(******************************* properties ********************************)
TypeOK == \A i \in 1..Len(items) : items[i].k \in {"t", "sp", "pu", "li", "ind", "ref", "reg"}
Guaranteed == Guarantee(ops, items)
ImportsFound == SameBag(Walk(links, items), Imports(ops))

Dummy == [oq |-> <<<<34>>, <<34>>>>, cq |-> <<<<34>>, <<34>>>>,
          es |-> <<>>, ee |-> <<>>, ls |-> <<>>, le |-> <<>>, esc |-> "id"]
Cfg == [unit |-> <<32, 32>>, nl |-> <<10>>]
F == Format(items, Dummy, Imps, Cfg)
Rendered == F.res = "ok" /\ F.out = RenderDecl(items, Imps)

Text(seq) == FlattenSeq([i \in 1..Len(seq) |-> Txt(seq[i], Imps)])
NoWs(out) == SelectSeq(out, LAMBDA c : c >= 0 /\ c # 32)
(* All text, in order; no break at the start; no line ends in whitespace;  *)
(* at most one blank line; indentation only at the start of a line.        *)
Layout ==
  LET out == F.out  n == Len(out) IN
  /\ NoWs(out) = Text(ops)
  /\ n > 0 => out[1] # NL /\ out[n] > 32
  /\ \A i \in 1..(n-1) :
       /\ out[i+1] = NL => out[i] = NL \/ out[i] > 32
       /\ out[i+1] = TAB1 => out[i] \in {NL, TAB1}
       /\ i + 2 <= n => ~(out[i] = NL /\ out[i+1] = NL /\ out[i+2] = NL)

(* Rebuilding a stream from its own items changes nothing, and adding the  *)
(* items of a stream is the same as performing its operations.             *)
Rebuild == Norm(items) = items
Compose ==
  \A k \in 0..Len(hist) :
    LET a == SubSeq(ops, 1, k)
        b == SubSeq(ops, k + 1, Len(ops))
        x == RunFrom(Norm(a), Norm(b))
    IN ~HasNetZero(b) => /\ Meanings(x) = Meanings(ops)
                         /\ Format(x, Dummy, Imps, Cfg).out = F.out

(* Rendering a stream in two pieces through the same formatter: the text is *)
(* separated by everything that was requested in either.                   *)
Pieces ==
  \A k \in 0..Len(hist) :
    LET a == Norm(SubSeq(ops, 1, k))
        b == Norm(SubSeq(ops, k + 1, Len(ops)))
        m == FormatFrom(Format(a, Dummy, Imps, Cfg).end, b, Dummy, Imps, Cfg)
    IN m.res = "ok" /\ m.out = RenderDecl(a \o b, Imps)

(* Equal up to whitespace that means nothing (see Stream): streams which   *)
(* mean the same render the same.                                          *)

(********************************** export *********************************)
Export == (Dump /\ Len(hist) = MaxLen) => PrintT("C" \o ToJson(ops))
=============================================================================
