------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Whitespace of quoted code (genco-macros/src/encoder.rs): elements of    *)
(* the source have a start and an end (line and column); what separates    *)
(* them follows from these alone.                                          *)
(*                                                                         *)
(* The declarative meaning: elements which follow each other without a     *)
(* change of line are a row. A row is nested one level below the closest   *)
(* preceding row which starts further to the left. A row which starts      *)
(* further to the left than the preceding one has to start at the column   *)
(* of a row which encloses the preceding one.                              *)
(***************************************************************************)
EXTENDS Stream

At(l, c) == [l |-> l, c |-> c]

(***************************** the machine *********************************)
(* from: end of the previous element; row: column of the current row, or   *)
(* -1 if it is not known yet; cols: columns of enclosing rows; span: the   *)
(* previous position is the start of a span rather than an element.        *)
NoErr == [dir |-> "", n |-> 0]
L0 == [has |-> FALSE, from |-> At(0, 0), start |-> At(0, 0), row |-> -1, cols |-> <<>>,
       span |-> FALSE, err |-> NoErr]
LSpan(p) == [L0 EXCEPT !.has = TRUE, !.from = p, !.start = p, !.span = TRUE]

Mismatch(to, from) == IF to > from THEN [dir |-> "less", n |-> to - from]
                      ELSE [dir |-> "more", n |-> from - to]

(* Match the column of a row against those of the enclosing rows. *)
RECURSIVE Unwind(_, _, _, _)
Unwind(cols, col, ws, ops) ==
  LET c == Last(cols)  rest == Front(cols) IN
  IF c > col /\ rest # <<>> THEN Unwind(rest, col, ws, ops \o <<IND(-1)>> \o ws)
  ELSE IF c = col THEN [cols |-> rest, ops |-> ops \o <<IND(-1)>> \o ws, err |-> NoErr]
  ELSE [cols |-> rest, ops |-> ops, err |-> Mismatch(col, c)]

(* What is between st.from and the position to; end: to is the end of a    *)
(* span. Result: <<state, operations>>                                     *)
Whitespace(st, to, end) ==
  LET col == IF st.row = -1 THEN st.start.c ELSE st.row
      known == IF st.has THEN [st EXCEPT !.row = col] ELSE st
      blank == IF to.l - st.from.l > 1 THEN <<LI>> ELSE <<>>
  IN IF ~st.has \/ st.from = to THEN <<known, <<>> >>
     ELSE IF st.from.l = to.l THEN <<known, IF st.from.c < to.c THEN <<SP>> ELSE <<>> >>
     ELSE LET new == [st EXCEPT !.row = -1] IN
          IF col < to.c THEN <<[new EXCEPT !.cols = Append(@, col)], <<IND(1)>> \o blank>>
          ELSE IF col = to.c THEN <<new, IF blank # <<>> THEN blank ELSE <<PU>> >>
          ELSE IF end THEN <<new, <<>> >>
          ELSE IF st.cols = <<>>
               THEN IF st.span THEN <<new, <<>> >>
                    ELSE <<[new EXCEPT !.err = Mismatch(to.c, col)], <<>> >>
          ELSE LET u == Unwind(st.cols, to.c, blank, <<>>)
               IN <<[new EXCEPT !.cols = u.cols, !.err = u.err], u.ops>>

(* An element from a to b. *)
Element(st, a, b) ==
  LET w == Whitespace(st, a, FALSE)
  IN <<[w[1] EXCEPT !.has = TRUE, !.span = FALSE, !.from = b, !.start = a], w[2]>>

(* All indentation is undone at the end. *)
Finish(st) == [i \in 1..Len(st.cols) |-> IND(-1)]

(***************************** declarative *********************************)
(* rows: sequence of columns. *)
Parent(cols, i) == LET S == {j \in 1..(i-1) : cols[j] < cols[i]}
                   IN IF S = {} THEN 0 ELSE MaxS(S)
RECURSIVE Level(_, _)
Level(cols, i) == IF Parent(cols, i) = 0 THEN 0 ELSE 1 + Level(cols, Parent(cols, i))

RECURSIVE Enclosing(_, _)
Enclosing(cols, i) ==   \* columns of the rows enclosing row i, outermost first
  LET p == Parent(cols, i) IN IF p = 0 THEN <<>> ELSE Append(Enclosing(cols, p), cols[p])

Matches(cols, i) == IF i = 1 THEN TRUE ELSE IF cols[i] >= cols[i-1] THEN TRUE
                    ELSE \E j \in 1..Len(Enclosing(cols, i-1)) : Enclosing(cols, i-1)[j] = cols[i]
Accepted(cols) == \A i \in 1..Len(cols) : Matches(cols, i)

(* By how many columns the first mismatching row is off: compared to the   *)
(* closest enclosing row which starts further to the left, or else to the  *)
(* outermost one.                                                          *)
OffBy(cols) ==
  LET i == CHOOSE k \in 1..Len(cols) : ~Matches(cols, k) /\ \A j \in 1..(k-1) : Matches(cols, j)
      e == Append(Enclosing(cols, i-1), cols[i-1])
      left == {j \in 1..(Len(e)-1) : e[j] < cols[i]}
  IN IF left = {} THEN [dir |-> "more", n |-> e[1] - cols[i]]
     ELSE [dir |-> "less", n |-> cols[i] - e[MaxS(left)]]
=============================================================================
