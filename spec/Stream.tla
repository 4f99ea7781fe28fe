------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The token stream of genco (src/tokens): what each building operation    *)
(* does to the list of items, the linked list of language items, and what  *)
(* the resulting list is documented to guarantee.                          *)
(*                                                                         *)
(* An operation and an item are records [k, n, s]:                         *)
(*   t    literal text s (a sequence of code points)                       *)
(*   sp, pu, li    space, push, line                                       *)
(*   ind  change of indentation by n                                       *)
(*   oq   open a string, n = 1 if it is evaluated;  cq closes it           *)
(*   oe, ce   open and close an evaluation inside of a string              *)
(*   ref, reg    reference to / registration of the import number n        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

I(k, n, s) == [k |-> k, n |-> n, s |-> s]
T(s) == I("t", 0, s)
SP == I("sp", 0, <<>>)
PU == I("pu", 0, <<>>)
LI == I("li", 0, <<>>)
IND(n) == I("ind", n, <<>>)
OQ(e) == I("oq", e, <<>>)
CQ == I("cq", 0, <<>>)
OE == I("oe", 0, <<>>)
CE == I("ce", 0, <<>>)
REF(n) == I("ref", n, <<>>)
REG(n) == I("reg", n, <<>>)

IsWs(x) == x.k \in {"sp", "pu", "li", "ind"}

Prim(op) == [k |-> op.k, n |-> op.n, s |-> op.s]

(*************************** the building machine **************************)

(* Remove whitespace of the given kinds from the end. *)
RECURSIVE Strip(_, _)
Strip(items, kinds) ==
  IF items # <<>> /\ Last(items).k \in kinds
  THEN Strip(Front(items), kinds)
  ELSE items

Space(items) ==
  IF items # <<>> /\ Last(items).k = "sp" THEN items ELSE Append(items, SP)

Push(items) ==
  LET rest == Strip(items, {"sp", "pu"})
  IN IF rest # <<>> /\ Last(rest).k = "li" THEN rest ELSE Append(rest, PU)

Line(items) == Append(Strip(items, {"li", "pu"}), LI)

(* How much one item can change the indentation.                           *)
MaxInd == 32767
Fits(n) == n \in (0 - MaxInd - 1)..MaxInd

RECURSIVE Indentation(_, _)
Indentation(items, n) ==
  LET rest == Strip(items, {"sp", "pu", "li"})
  IN IF rest # <<>> /\ Last(rest).k = "ind" /\ Fits(n + Last(rest).n)
     THEN Indentation(Front(rest), n + Last(rest).n)
     ELSE IF n = 0 THEN rest ELSE Append(rest, IND(n))

Step(items, op) ==
  CASE op.k = "sp" -> Space(items)
    [] op.k = "pu" -> Push(items)
    [] op.k = "li" -> Line(items)
    [] op.k = "ind" -> Indentation(items, op.n)
    [] OTHER -> Append(items, Prim(op))

RunFrom(items, ops) == FoldLeft(Step, items, ops)
Norm(ops) == RunFrom(<<>>, ops)

(******************* the linked list of language items *********************)
(* Every language item stores the position of the one before it; the       *)
(* stream stores the position of the last one. Whitespace may be removed   *)
(* and added again, but positions of language items never move.            *)

IsLang(x) == x.k \in {"ref", "reg"}

Links0 == [last |-> 0, prev |-> <<>>]      \* prev: position -> position

StepLinks(links, items, op) ==
  IF IsLang(op)
  THEN LET pos == Len(items) + 1
       IN [last |-> pos, prev |-> Append(links.prev, <<pos, links.last>>)]
  ELSE links

RECURSIVE WalkFrom(_, _, _)
WalkFrom(links, items, pos) ==
  IF pos = 0 THEN <<>>
  ELSE LET prev == SelectSeq(links.prev, LAMBDA p : p[1] = pos)
       IN <<items[pos].n>> \o WalkFrom(links, items, prev[1][2])
Walk(links, items) == WalkFrom(links, items, links.last)

(* Declarative: the imports which have been added, as a bag. *)
Imports(ops) == [i \in 1..Len(SelectSeq(ops, IsLang)) |-> SelectSeq(ops, IsLang)[i].n]
Count(seq, x) == Len(SelectSeq(seq, LAMBDA y : y = x))
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

(*************************** what is guaranteed ****************************)

Solids(seq) == SelectSeq(seq, LAMBDA x : ~IsWs(x))

(* The whitespace between solid items: Len(Solids(seq)) + 1 gaps. *)
Gaps(seq) ==
  FoldLeft(LAMBDA acc, x :
             IF IsWs(x)
             THEN [acc EXCEPT ![Len(acc)] = Append(@, x)]
             ELSE Append(acc, <<>>),
           << <<>> >>, seq)

(* Structural guarantees of the documentation. *)
WellFormed(items) ==
  /\ \A i \in 1..(Len(items) - 1) :
       LET a == items[i]  b == items[i+1] IN
       /\ ~(a.k = b.k /\ a.k \in {"sp", "pu", "li"})
       /\ ~(a.k = "ind" /\ b.k = "ind" /\ Fits(a.n + b.n))
       /\ ~(a.k = "li" /\ b.k = "pu")
       /\ ~(a.k \in {"sp", "pu", "li"} /\ b.k = "ind")
  /\ \A i \in 1..Len(items) : items[i].k = "ind" => items[i].n # 0

MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
LastIdx(seq, kinds) ==
  LET S == {i \in 1..Len(seq) : seq[i].k \in kinds}
  IN IF S = {} THEN 0 ELSE MaxS(S)
SumInd(seq) ==
  FoldLeft(LAMBDA a, x : IF x.k = "ind" THEN a + x.n ELSE a, 0, seq)

(* What a gap asks for: by how much indentation changes (n), the strongest *)
(* break (2 blank line, 1 line break, 0 none) requested after the last     *)
(* change of indentation, and if a space was requested after that break.   *)
(* Named deviation NetZero: changes of indentation which cancel out drop   *)
(* everything requested before, and do not break the line (known finding). *)
Meaning(gap) ==
  LET j == LastIdx(gap, {"ind"})
      n == SumInd(gap)
      tail == SubSeq(gap, j + 1, Len(gap))
      b == LastIdx(tail, {"pu", "li"})
      has(k) == \E i \in 1..Len(tail) : tail[i].k = k
  IN [n |-> n,
      brk |-> IF has("li") THEN 2
              ELSE IF has("pu") \/ (j > 0 /\ n # 0) THEN 1 ELSE 0,
      sp |-> IF \E i \in (b+1)..Len(tail) : tail[i].k = "sp" THEN 1 ELSE 0]

Meanings(seq) == LET g == Gaps(seq) IN [i \in 1..Len(g) |-> Meaning(g[i])]

(* The whole guarantee, between what was done (ops) and a list of items.   *)
Guarantee(ops, items) ==
  /\ WellFormed(items)
  /\ Solids(items) = Solids(ops)
  /\ Meanings(items) = Meanings(ops)

(* Is there a gap in which changes of indentation cancel out? *)
NetZeroGap(gap) == LastIdx(gap, {"ind"}) > 0 /\ SumInd(gap) = 0
HasNetZero(ops) == LET g == Gaps(ops) IN \E i \in 1..Len(g) : NetZeroGap(g[i])

(******************************* composition *******************************)
(* Operations of the composed language, additionally with                  *)
(*   how  the way in which the value is added                              *)
(*   c    nested programs, numbers of imports or texts                     *)
(*   nest nested programs, regs a tuple of registrations, id a rebuild     *)

Quoting == {"quoted", "quoted&", "quotedvec", "quotedopt", "quotedfn"}
InPlace == {"from_fn", "quote_in_ref", "quotedfn"}
Absent == {"none", "optnone"}

(* Comments: n = 1 a block comment of Java, 2 lines starting with ///, 3   *)
(* lines starting with //. c are the lines.                                *)
CommentOps(n, c) ==
  IF c = <<>> THEN <<>>
  ELSE LET marker == CASE n = 1 -> <<42>> [] n = 2 -> <<47, 47, 47>> [] n = 3 -> <<47, 47>>
       IN IF n = 1
          THEN <<PU, T(<<47, 42, 42>>), PU>>
               \o FlattenSeq([i \in 1..Len(c) |-> <<SP, T(marker), SP, T(c[i]), PU>>])
               \o <<SP, T(<<42, 47>>)>>
          ELSE FlattenSeq([i \in 1..Len(c) |-> <<PU, T(marker), SP, T(c[i])>>])

RECURSIVE Flat(_), FlatOp(_)
(* The primitive operations which a program performs on the receiver, as   *)
(* implemented: a nested stream is built on its own, then its items are    *)
(* added again one by one.                                                 *)
Flat(prog) == FlattenSeq([i \in 1..Len(prog) |-> FlatOp(prog[i])])
FlatOp(op) ==
  CASE op.k = "nest" ->
         LET inner ==
               IF op.how \in Absent THEN <<>>
               ELSE LET each == FlattenSeq([i \in 1..Len(op.c) |->
                          IF op.how \in InPlace THEN Flat(op.c[i]) ELSE Norm(Flat(op.c[i]))])
                    IN IF op.how = "collect_chunks" THEN Norm(each) ELSE each
         IN IF op.how \in Quoting THEN <<OQ(0)>> \o inner \o <<CQ>> ELSE inner
    [] op.k = "regs" -> [i \in 1..Len(op.c) |-> REG(op.c[i])]
    [] op.k = "id" -> <<>>
    [] op.k = "comment" -> CommentOps(op.n, op.c)
    [] OTHER -> <<Prim(op)>>

RECURSIVE Spec(_), SpecOp(_)
(* The operations which a program stands for: those of nested values,      *)
(* performed in place.                                                     *)
Spec(prog) == FlattenSeq([i \in 1..Len(prog) |-> SpecOp(prog[i])])
SpecOp(op) ==
  CASE op.k = "nest" ->
         LET inner == IF op.how \in Absent THEN <<>>
                      ELSE FlattenSeq([i \in 1..Len(op.c) |-> Spec(op.c[i])])
         IN IF op.how \in Quoting THEN <<OQ(0)>> \o inner \o <<CQ>> ELSE inner
    [] op.k = "regs" -> [i \in 1..Len(op.c) |-> REG(op.c[i])]
    [] op.k = "id" -> <<>>
    [] op.k = "comment" -> CommentOps(op.n, op.c)
    [] OTHER -> <<Prim(op)>>

(* Does a nested stream contain a gap which cancels out (NetZero)? Then    *)
(* whitespace requested by the receiver before it is kept.                 *)
RECURSIVE NestedNetZero(_)
NestedNetZero(prog) ==
  \E i \in 1..Len(prog) :
    /\ prog[i].k = "nest"
    /\ prog[i].how \notin Absent
    /\ \E j \in 1..Len(prog[i].c) :
         \/ HasNetZero(Flat(prog[i].c[j])) \/ HasNetZero(Spec(prog[i].c[j]))
         \/ NestedNetZero(prog[i].c[j])
=============================================================================
