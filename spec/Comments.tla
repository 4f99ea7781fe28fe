------------------------------ MODULE Comments ------------------------------
(***************************************************************************)
(* Reading comments: the lines of a rendered file are read as code or as   *)
(* comments, and compared with what the comment helpers were given.        *)
(* An event is [k, s, lvl]: code without whitespace, open, line, close.    *)
(***************************************************************************)
EXTENDS Render

Ev(k, s, lvl) == [k |-> k, s |-> s, lvl |-> lvl]
Blank(c) == c \in {32, 9}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Blank(Head(s)) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Blank(Last(s)) THEN TrimR(Front(s)) ELSE s
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, n) == SubSeq(s, n, Len(s))
Squash(s) == SelectSeq(s, LAMBDA c : ~Blank(c))
(* The text of a comment line: one space after the marker is not a part.   *)
Payload(s) == TrimR(IF s # <<>> /\ Head(s) = 32 THEN Tail(s) ELSE s)

OPEN == <<47, 42, 42>>
CLOSE == <<42, 47>>
LINE3 == <<47, 47, 47>>
LINE2 == <<47, 47>>

HasAt(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
At(s, p) == CHOOSE k \in 1..(Len(s) - Len(p) + 1) :
              /\ SubSeq(s, k, k + Len(p) - 1) = p
              /\ \A j \in 1..(k-1) : SubSeq(s, j, j + Len(p) - 1) # p

Code(st, s) ==
  LET t == Squash(s)
      n == Len(st.ev)
  IN IF t = <<>> THEN st
     ELSE IF n > 0 /\ st.ev[n].k = "code" THEN [st EXCEPT !.ev[n].s = @ \o t]
     ELSE [st EXCEPT !.ev = Append(@, Ev("code", t, 0))]
Event(st, e) == [st EXCEPT !.ev = Append(@, e)]

(* Read a line. Inside of a block, the first close ends the comment.       *)
ReadLine(st, line) ==
  LET t == TrimL(line)
      lead == Len(line) - Len(t)
  IN IF st.block
     THEN IF HasAt(line, CLOSE)
          THEN LET k == At(line, CLOSE)
                   before == TrimL(SubSeq(line, 1, k - 1))
                   st1 == IF before = <<>> THEN st ELSE Event(st, Ev("line", Payload(IF before[1] = 42 THEN Tail(before) ELSE before), lead))
               IN Code([Event(st1, Ev("close", <<>>, lead)) EXCEPT !.block = FALSE], From(line, k + 2))
          ELSE IF StartsWith(t, <<42>>) THEN Event(st, Ev("line", Payload(Tail(t)), lead))
          ELSE Event(st, Ev("line", <<-9>> \o t, lead))      \* no marker
     ELSE IF StartsWith(t, OPEN) THEN [Code(Event(st, Ev("open", <<>>, lead)), From(t, 4)) EXCEPT !.block = TRUE]
     ELSE IF StartsWith(t, LINE3) THEN Event(st, Ev("line3", Payload(From(t, 4)), lead))
     ELSE IF StartsWith(t, LINE2) THEN Event(st, Ev("line2", Payload(From(t, 3)), lead))
     ELSE Code(st, line)

Read(lines) == FoldLeft(ReadLine, [block |-> FALSE, ev |-> <<>>], lines).ev

(* What was given, with the indentation of the lines. unit: width.         *)
Given(prog, unit) ==
  LET step(st, o) ==
        CASE o.k = "ind" -> [st EXCEPT !.ind = @ + o.n]
          [] o.k = "t" -> Code(st, o.s)
          [] o.k = "comment" ->
               LET lvl == unit * MaxOf(st.ind, 0)
                   k == CASE o.n = 1 -> "line" [] o.n = 2 -> "line3" [] o.n = 3 -> "line2"
                   ls == [i \in 1..Len(o.c) |-> Ev(k, TrimR(o.c[i]), IF o.n = 1 THEN lvl + 1 ELSE lvl)]
               IN IF o.c = <<>> THEN st
                  ELSE [st EXCEPT !.ev = @ \o (IF o.n = 1 THEN <<Ev("open", <<>>, lvl)>> \o ls \o <<Ev("close", <<>>, lvl + 1)>>
                                               ELSE ls)]
          [] OTHER -> st
  IN FoldLeft(step, [ind |-> 0, ev |-> <<>>], prog).ev

(* After a line comment, the line has to be ended before code follows.     *)
Separated(prog) ==
  \A a, b \in 1..Len(prog) :
    (a < b /\ prog[a].k = "comment" /\ prog[a].n > 1 /\ prog[a].c # <<>> /\ prog[b].k = "t" /\ prog[b].s # <<>>)
    => \E m \in (a+1)..(b-1) : /\ prog[m].k \in {"pu", "li"}
                               /\ \A q \in (m+1)..(b-1) : prog[q].k # "ind"

(* Named deviation JavaClose (known finding): a line which contains the    *)
(* end of a block comment ends it.                                         *)
JavaClose(prog) == \E a \in 1..Len(prog) : prog[a].k = "comment" /\ prog[a].n = 1 /\ \E j \in 1..Len(prog[a].c) : HasAt(prog[a].c[j], CLOSE)
=============================================================================
