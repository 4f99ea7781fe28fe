------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* All arrangements of rows: the machine which decides whitespace accepts  *)
(* exactly the layouts with matching columns, reports by how much others   *)
(* are off, and what it requests renders rows at their level, separated by *)
(* one line break or one blank line, and is balanced at the end.           *)
(***************************************************************************)
EXTENDS Layout, Render, TLC, Json

CONSTANTS MaxRows, MaxCol, Blanks, Dump
EscapeImpl(mode, s) == s

VARIABLES rows     \* sequence of <<column, number of blank lines before>>
vars == <<rows>>

Init == rows \in {<< <<c, 0>> >> : c \in 0..MaxCol}
Next == /\ Len(rows) < MaxRows
        /\ Accepted([i \in 1..Len(rows) |-> rows[i][1]])
        /\ \E c \in 0..MaxCol, b \in Blanks : rows' = Append(rows, <<c, b>>)

N == Len(rows)
Cols == [i \in 1..N |-> rows[i][1]]
RowLine(i) == FoldLeft(LAMBDA a, k : a + 1 + rows[k][2], 0, [k \in 1..i |-> k])
Word(i) == <<96 + i>>

Run == FoldLeft(LAMBDA a, i :
         LET e == Element(a.st, At(RowLine(i), Cols[i]), At(RowLine(i), Cols[i] + 1))
         IN IF a.st.err # NoErr THEN a
            ELSE [st |-> e[1], ops |-> a.ops \o e[2] \o <<T(Word(i))>>],
         [st |-> L0, ops |-> <<>>], [i \in 1..N |-> i])

(* As one stream, followed by something. *)
Ops == Run.ops \o Finish(Run.st) \o <<PU, T(<<90>>)>>
Dummy == [oq |-> <<<<34>>, <<34>>>>, cq |-> <<<<34>>, <<34>>>>,
          es |-> <<>>, ee |-> <<>>, ls |-> <<>>, le |-> <<>>, esc |-> "id"]
Out == Format(Norm(Ops), Dummy, <<>>, [unit |-> <<32>>, nl |-> <<10>>]).out

Want == FlattenSeq([i \in 1..N |->
          (IF i = 1 THEN <<>> ELSE IF rows[i][2] > 0 THEN <<NL, NL>> ELSE <<NL>>)
          \o Rep(TAB1, Level(Cols, i)) \o Word(i)]) \o <<NL, 90>>

Decided == (Run.st.err = NoErr) <=> Accepted(Cols)
Reported == Run.st.err # NoErr => Run.st.err = OffBy(Cols)
Rendered == Run.st.err = NoErr => Out = Want
Balanced == Run.st.err = NoErr => SumInd(Ops) = 0

Export == (Dump /\ (N = MaxRows \/ ~Accepted(Cols))) => PrintT("C" \o ToJson([rows |-> rows, ok |-> Accepted(Cols)]))
=============================================================================
