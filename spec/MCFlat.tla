------------------------------- MODULE MCFlat -------------------------------
(***************************************************************************)
(* Compilers which tell where something is in bytes, but not in which line *)
(* (genco-macros/src/fake.rs): the same machine (Layout) with everything   *)
(* in one line. Elements follow each other at all distances, with and      *)
(* without line breaks, and are any number of bytes long. What is between  *)
(* two elements is a space if anything is between them; nothing is ever    *)
(* rejected; the meaning is that of the same elements in a single line.    *)
(***************************************************************************)
EXTENDS Layout, Render, TLC, Json

CONSTANTS MaxEls, MaxCol, Lens
EscapeImpl(mode, s) == s

(* els: [nl: line breaks before, c: columns (of the row after a line break, *)
(* or from the end of the previous element), n: columns, b: bytes]          *)
VARIABLES els
vars == <<els>>
El == [nl : {0, 1, 2}, c : 0..MaxCol, n : Lens, b : Lens]
Els == {e \in El : e.b >= e.n}
Init == els \in {<<[e EXCEPT !.nl = 0]>> : e \in Els}
Next == Len(els) < MaxEls /\ \E e \in Els : els' = Append(els, e)

N == Len(els)
Word(i) == <<96 + i>>
(* Offsets in bytes: a line break is one, a column is one. *)
Gap(i) == els[i].nl + els[i].c
RECURSIVE Off(_)
Off(i) == IF i = 1 THEN Gap(1) ELSE Off(i-1) + els[i-1].b + Gap(i)
Bytes == [i \in 1..N |-> [s |-> At(1, Off(i)), e |-> At(1, Off(i) + els[i].b)]]
(* Lines and columns, if all was in one line and everything one column. *)
RECURSIVE Col(_)
Col(i) == IF i = 1 THEN 0 ELSE Col(i-1) + 1 + (IF Gap(i) > 0 THEN 1 ELSE 0)
Row == [i \in 1..N |-> [s |-> At(7, Col(i)), e |-> At(7, Col(i) + 1)]]

Run(ps, from) == FoldLeft(LAMBDA a, i :
         LET e == Element(a.st, ps[i].s, ps[i].e)
         IN IF a.st.err # NoErr THEN a
            ELSE [st |-> e[1], ops |-> a.ops \o e[2] \o <<T(Word(i))>>],
         [st |-> from, ops |-> <<>>], [i \in 1..N |-> i])
RunFlat == Run(Bytes, L0)

Dummy == [oq |-> <<<<34>>, <<34>>>>, cq |-> <<<<34>>, <<34>>>>,
          es |-> <<>>, ee |-> <<>>, ls |-> <<>>, le |-> <<>>, esc |-> "id"]
Out(ops) == Format(Norm(ops \o <<PU, T(<<90>>)>>), Dummy, <<>>, [unit |-> <<32>>, nl |-> <<10>>]).out

Want == FlattenSeq([i \in 1..N |-> (IF i > 1 /\ Gap(i) > 0 THEN <<32>> ELSE <<>>) \o Word(i)]) \o <<NL, 90>>

NothingRejected == RunFlat.st.err = NoErr
OneSpace == Out(RunFlat.ops \o Finish(RunFlat.st)) = Want
AsInOneRow == RunFlat.ops = Run(Row, L0).ops
NoIndentation == RunFlat.st.cols = <<>>
(* The start and the end of a body count, too: space before and after. *)
Body == LET r == Run(Bytes, LSpan(At(1, 0)))
            w == Whitespace(r.st, At(1, Off(N) + els[N].b + Gap(1)), TRUE)
        IN r.st.err = NoErr => Out(r.ops \o w[2]) =
             (IF Gap(1) > 0 THEN <<32>> ELSE <<>>) \o FlattenSeq([i \in 1..N |-> (IF i > 1 /\ Gap(i) > 0 THEN <<32>> ELSE <<>>) \o Word(i)])
             \o <<NL, 90>>
=============================================================================
