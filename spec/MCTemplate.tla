----------------------------- MODULE MCTemplate -----------------------------
(***************************************************************************)
(* Quoted code as a program: all small templates, written symbol by        *)
(* symbol, are executed step by step by a machine with a program counter,  *)
(* a stack of activations and variables, the way generated code runs. What *)
(* it performs and evaluates is what Template says the template means.     *)
(*                                                                         *)
(* Symbols [k, n, s]:                                                      *)
(*   tok       a token                                                     *)
(*   var       the innermost variable, evaluated                           *)
(*   ctl n     requested whitespace                                        *)
(*   let       bind the innermost variable, plus one, to a new one         *)
(*   for n s   loop over 1..n, separated by: 0 nothing, 1 a comma,         *)
(*             2 a requested line, 3 the variable                          *)
(*   if n      condition n;  iflet n: Some(n) or None if n = 0             *)
(*   match n   of n: arms 0, 1 if guard, _                                 *)
(*   break     leave the loop;  continue  its iteration                    *)
(*   |         the next branch                                             *)
(*   end       of for, if, match                                           *)
(***************************************************************************)
EXTENDS Template, TLC, Json

CONSTANTS MaxLen, Leaves, Opens, Dump

S(k, n, s) == [k |-> k, n |-> n, s |-> s]
LeafSet == {x \in {S("tok", 0, 0), S("var", 0, 0), S("ctl", 1, 0), S("ctl", 2, 0), S("let", 0, 0),
                  S("break", 0, 0), S("continue", 0, 0)} : x.k \in Leaves}
OpenSet == {x \in UNION {{S("for", n, s) : n \in 0..2, s \in 0..3},
                         {S("if", n, 0) : n \in 0..1}, {S("iflet", n, 0) : n \in 0..1},
                         {S("match", n, 0) : n \in 0..2}} : x.k \in Opens}

VARIABLES code, open,                 \* building: code, constructs which are open (with the current branch)
          phase, pc, stack, ops, log, vals  \* running
vars == <<code, open, phase, pc, stack, ops, log, vals>>

Init == /\ code = <<>> /\ open = <<>> /\ phase = "build"
        /\ pc = 1 /\ stack = <<>> /\ ops = <<>> /\ log = <<>> /\ vals = <<7>>

(******************************** building *********************************)
Running == <<pc, stack, ops, log, vals>>
\* room to close everything that is open (a match needs all of its arms)
Needed(o) == FoldLeft(LAMBDA a, x : a + 1 + (IF x[1] = "match" THEN 3 - x[2] ELSE 0), 0, o)
Allowance(c, o) == Len(c) + Needed(o) <= MaxLen
Extend(x, o) == /\ Allowance(Append(code, x), o)
                /\ code' = Append(code, x) /\ open' = o
                /\ UNCHANGED phase /\ UNCHANGED Running
Loops(o) == SelectSeq(o, LAMBDA y : y[1] = "for")
\* an iteration is not left early if there are separators
Leaf == \E x \in LeafSet : /\ x.k \in {"break", "continue"} => Loops(open) # <<>>
                           /\ x.k = "continue" => Last(Loops(open))[3] = 0
                           /\ Extend(x, open)
Open == \E x \in OpenSet : Extend(x, Append(open, <<x.k, 1, x.s>>))
Branch == /\ open # <<>>
          /\ \/ Last(open)[1] \in {"if", "iflet"} /\ Last(open)[2] = 1
             \/ Last(open)[1] = "match" /\ Last(open)[2] < 3
          /\ Extend(S("|", 0, 0), Append(Front(open), <<Last(open)[1], Last(open)[2] + 1, 0>>))
Close == /\ open # <<>>
         /\ Last(open)[1] = "match" => Last(open)[2] = 3
         /\ Extend(S("end", 0, 0), Front(open))
Start == /\ code # <<>> /\ open = <<>> /\ phase = "build"
         /\ phase' = "run"
         /\ stack' = <<[k |-> "body", at |-> 0, i |-> 0, n |-> 0, s |-> 0, vals |-> 1, first |-> TRUE]>>
         /\ UNCHANGED <<code, open, pc, ops, log, vals>>

(******************************** execution ********************************)
(* pc of the branch number b of the construct at p, of its end if there is *)
(* no such branch.                                                         *)
RECURSIVE Skip(_, _, _)
Skip(p, depth, b) ==
  LET x == code[p].k IN
  IF depth = 0 /\ x = "end" THEN p
  ELSE IF depth = 0 /\ x = "|" THEN IF b = 1 THEN p + 1 ELSE Skip(p + 1, depth, b - 1)
  ELSE Skip(p + 1, IF x \in {"for", "if", "iflet", "match"} THEN depth + 1
                   ELSE IF x = "end" THEN depth - 1 ELSE depth, b)
BranchAt(p, b) == IF b = 0 THEN p + 1 ELSE Skip(p + 1, 0, b)
EndAt(p) == Skip(p + 1, 0, 99)

Top == Last(stack)
\* the space between elements of a row
Gap == IF Top.first THEN <<>> ELSE <<SP>>
Seen == Append(Front(stack), [Top EXCEPT !.first = FALSE])
Frame(k, at, i, n, s) == [k |-> k, at |-> at, i |-> i, n |-> n, s |-> s, vals |-> Len(vals), first |-> TRUE]

Text(n) == T(Digits(n))
SepOps(s, v) == CASE s = 0 -> <<>> [] s = 1 -> <<T(<<44>>)>> [] s = 2 -> <<LI>> [] s = 3 -> <<Text(v)>>

StepLeaf ==
  /\ code[pc].k \in {"tok", "var", "ctl", "let"}
  /\ pc' = pc + 1 /\ stack' = Seen
  /\ CASE code[pc].k = "tok" -> ops' = ops \o Gap \o <<T(<<97>>)>> /\ UNCHANGED <<log, vals>>
       [] code[pc].k = "ctl" -> ops' = ops \o Gap \o << <<SP, PU, LI>>[code[pc].n + 1] >> /\ UNCHANGED <<log, vals>>
       [] code[pc].k = "var" -> ops' = ops \o Gap \o <<Text(Last(vals))>> /\ log' = Append(log, pc) /\ UNCHANGED vals
       [] code[pc].k = "let" -> ops' = ops \o Gap /\ vals' = Append(vals, Last(vals) + 1) /\ log' = Append(log, pc)
StepExit ==
  /\ code[pc].k \in {"break", "continue"}
  /\ ops' = ops \o Gap /\ UNCHANGED log
  /\ LET j == MaxS({i \in 1..Len(stack) : stack[i].k = "for"})
         f == stack[j]
     IN /\ vals' = SubSeq(vals, 1, f.vals)
        /\ IF code[pc].k = "break"
           THEN pc' = EndAt(f.at) + 1 /\ stack' = SubSeq(stack, 1, j - 1)
           ELSE pc' = EndAt(f.at) /\ stack' = SubSeq(stack, 1, j)
StepFor ==
  /\ code[pc].k = "for"
  /\ ops' = ops \o Gap /\ log' = Append(log, pc)
  /\ IF code[pc].n = 0
     THEN pc' = EndAt(pc) + 1 /\ stack' = Seen /\ UNCHANGED vals
     ELSE /\ pc' = pc + 1 /\ vals' = Append(vals, 1)
          /\ stack' = Append(Seen, Frame("for", pc, 1, code[pc].n, code[pc].s))
StepIf ==
  /\ code[pc].k \in {"if", "iflet"}
  /\ ops' = ops \o Gap /\ log' = Append(log, pc)
  /\ LET to == BranchAt(pc, 1 - code[pc].n) IN
     IF to = EndAt(pc) /\ code[pc].n = 0
     THEN pc' = to + 1 /\ stack' = Seen /\ UNCHANGED vals
     ELSE /\ pc' = to /\ stack' = Append(Seen, Frame("if", pc, 0, 0, 0))
          /\ vals' = IF code[pc].k = "iflet" /\ code[pc].n = 1 THEN Append(vals, 5) ELSE vals
StepMatch ==
  /\ code[pc].k = "match"
  /\ ops' = ops \o Gap
  \* the guard of the second arm is evaluated if it matches
  /\ log' = Append(log, pc) \o (IF code[pc].n > 0 THEN <<pc + 1000>> ELSE <<>>)
  /\ pc' = BranchAt(pc, code[pc].n)
  /\ stack' = Append(Seen, Frame("match", pc, 0, 0, 0))
  /\ vals' = IF code[pc].n = 1 THEN Append(vals, 1) ELSE vals
StepEnd ==
  /\ code[pc].k \in {"end", "|"}
  /\ LET f == Top  outer == SubSeq(vals, 1, f.vals) IN
     IF f.k = "for" /\ f.i < f.n
     THEN /\ pc' = f.at + 1
          \* bindings of the body are visible in the separator
          /\ ops' = ops \o SepOps(f.s, Last(vals))
          /\ vals' = Append(outer, f.i + 1)
          /\ stack' = Append(Front(stack), [f EXCEPT !.i = @ + 1, !.first = TRUE])
          /\ UNCHANGED log
     ELSE /\ pc' = EndAt(f.at) + 1 /\ vals' = outer /\ stack' = Front(stack)
          /\ UNCHANGED <<ops, log>>
Execute == /\ phase = "run" /\ pc <= Len(code)
           /\ StepLeaf \/ StepExit \/ StepFor \/ StepIf \/ StepMatch \/ StepEnd
           /\ UNCHANGED <<code, open, phase>>
Finished == phase = "run" /\ pc > Len(code)

Next == (phase = "build" /\ (Leaf \/ Open \/ Branch \/ Close)) \/ Start \/ Execute

(***************************** the same as a template **********************)
(* Elements of the code from p on until the branch ends: <<elements, p>>.  *)
(* All variables have the same name.                                       *)
X == <<120>>
Ev(n, e) == [x |-> "ev", n |-> n, c |-> <<e>>]
IntE(n) == [x |-> "i", n |-> n]
VarE == [x |-> "v", v |-> X]
IdP == [p |-> "id", v |-> X]
On(els) == LET n == Len(els)
           IN [els |-> [i \in 1..n |-> [a |-> At(1, 2 * i), b |-> At(1, 2 * i + 1)] @@ els[i]],
               span |-> FALSE, a |-> At(1, 1), b |-> At(1, 2 * n + 2)]
RECURSIVE Els(_, _), Branches(_, _)
Branches(p, acc) ==      \* bodies of the construct whose first branch starts at p
  LET e == Els(p, <<>>) IN
  IF code[e[2]].k = "|" THEN Branches(e[2] + 1, Append(acc, On(e[1])))
  ELSE <<Append(acc, On(e[1])), e[2] + 1>>
Sep(s) == CASE s = 0 -> <<>>
            [] s = 1 -> <<On(<<[k |-> "tok", s |-> <<44>>]>>)>>
            [] s = 2 -> <<On(<<[k |-> "ctl", n |-> 2]>>)>>
            [] s = 3 -> <<On(<<[k |-> "expr", e |-> VarE]>>)>>
Arm(p, g, b) == [on |-> TRUE, p |-> p, g |-> g, body |-> b]
Els(p, acc) ==
  IF p > Len(code) \/ code[p].k \in {"|", "end"} THEN <<acc, p>>
  ELSE LET x == code[p] IN
  CASE x.k = "tok" -> Els(p + 1, Append(acc, [k |-> "tok", s |-> <<97>>]))
    [] x.k = "var" -> Els(p + 1, Append(acc, [k |-> "expr", e |-> Ev(p, VarE)]))
    [] x.k = "ctl" -> Els(p + 1, Append(acc, [k |-> "ctl", n |-> x.n]))
    [] x.k = "let" -> Els(p + 1, Append(acc, [k |-> "let", p |-> IdP,
                                              e |-> Ev(p, [x |-> "add", c |-> <<VarE, IntE(1)>>])]))
    [] x.k \in {"break", "continue"} ->
       Els(p + 1, Append(acc, [k |-> "ref", st |-> <<[k |-> "exit", how |-> x.k, e |-> [x |-> "b", n |-> 1]]>>]))
    [] OTHER ->
       LET b == Branches(p + 1, <<>>)
           e == CASE x.k = "for" ->
                       [k |-> "for", p |-> IdP, e |-> Ev(p, [x |-> "range", n |-> 1, m |-> x.n + 1]),
                        sep |-> Sep(x.s), body |-> b[1][1]]
                  [] x.k \in {"if", "iflet"} ->
                       [k |-> "if", p |-> IF x.k = "if" THEN <<>> ELSE <<[p |-> "some", c |-> <<IdP>>]>>,
                        e |-> Ev(p, IF x.k = "if" THEN [x |-> "b", n |-> x.n]
                                    ELSE IF x.n = 0 THEN [x |-> "none"] ELSE [x |-> "some", c |-> <<IntE(5)>>]),
                        then |-> b[1][1], els |-> Tail(b[1])]
                  [] x.k = "match" ->
                       [k |-> "match", e |-> Ev(p, IntE(x.n)),
                        arms |-> <<Arm([p |-> "int", n |-> 0], <<>>, b[1][1]),
                                   Arm(IdP, <<Ev(p + 1000, [x |-> "lt", c |-> <<VarE, IntE(2)>>])>>, b[1][2]),
                                   Arm([p |-> "_"], <<>>, b[1][3])>>]
       IN Els(b[2], Append(acc, e))

Denoted == Body(On(Els(1, <<>>)[1]), << <<X, VI(7)>> >>)

Same == Finished => /\ Norm(ops) = Norm(Denoted.ops) /\ Solids(ops) = Solids(Denoted.ops)
                    /\ log = Denoted.log
Clean == Finished => Len(stack) = 1

Export == (Dump /\ Finished) => PrintT("C" \o ToJson([i \in 1..Len(code) |-> code[i]]))
=============================================================================
