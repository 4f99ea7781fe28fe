------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* What quoted code stands for (genco-macros): the operations it performs  *)
(* on the stream and the expressions it evaluates, in order. Quoted code   *)
(* is a body: a sequence of elements with the positions of their start (a) *)
(* and end (b) in the source; if the body is sensitive to whitespace at    *)
(* its ends (span) also the positions of these.                            *)
(*                                                                         *)
(* Elements x.k:                                                           *)
(*   tok    tokens, delimiters and escapes: their text s                   *)
(*   lit    a string literal with the value s                              *)
(*   ctl    requested whitespace: n = 0 space, 1 push, 2 line              *)
(*   expr   an interpolated expression or variable e                       *)
(*   str    an interpolated string made of parts                           *)
(*   for    p in e, sep (a sequence of no or one body), body               *)
(*   if     cond e, then, els (a sequence of no or one body)               *)
(*   match  e, arms with p, g (a sequence of no or one guard), body, on    *)
(*   let    p = e                                                          *)
(*   ref    statements st                                                  *)
(*                                                                         *)
(* A statement may leave the loop it is in, or its iteration: out of what  *)
(* is done is then "break" or "continue", and everything up to there has   *)
(* been done.                                                              *)
(***************************************************************************)
EXTENDS Layout

(********************************* values **********************************)
Val(t, n, s, c) == [t |-> t, n |-> n, s |-> s, c |-> c]
VI(n) == Val("i", n, <<>>, <<>>)
VS(s) == Val("s", 0, s, <<>>)
VO(c) == Val("o", 0, <<>>, c)
VV(c) == Val("v", 0, <<>>, c)
VP(c) == Val("p", 0, <<>>, c)
VB(b) == Val("b", IF b THEN 1 ELSE 0, <<>>, <<>>)
VK(ops) == Val("k", 0, <<>>, ops)

RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(-n)
             ELSE IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

RECURSIVE Appended(_)
Appended(v) ==
  CASE v.t = "i" -> <<T(Digits(v.n))>>
    [] v.t = "s" -> <<T(v.s)>>
    [] v.t \in {"o", "v"} -> FlattenSeq([i \in 1..Len(v.c) |-> Appended(v.c[i])])
    [] v.t = "k" -> v.c

(* Variables: a sequence of <<name, value>>, later ones shadow earlier.    *)
Slot(env, name) == MaxS({i \in 1..Len(env) : env[i][1] = name})
Lookup(env, name) == env[Slot(env, name)][2]
Assign(env, name, v) == [env EXCEPT ![Slot(env, name)] = <<name, v>>]
Leave(env, outer) == SubSeq(env, 1, Len(outer))

(* Patterns: <<matches, bindings>>. *)
RECURSIVE Pat(_, _)
Pat(p, v) ==
  CASE p.p = "_" -> <<TRUE, <<>> >>
    [] p.p = "id" -> <<TRUE, << <<p.v, v>> >> >>
    [] p.p = "int" -> <<v.n = p.n, <<>> >>
    [] p.p = "str" -> <<v.s = p.s, <<>> >>
    [] p.p = "range" -> <<v.n >= p.n /\ v.n <= p.m, <<>> >>
    [] p.p = "or" -> <<\E i \in 1..Len(p.c) : Pat(p.c[i], v)[1], <<>> >>
    [] p.p = "none" -> <<v.c = <<>>, <<>> >>
    [] p.p = "some" -> IF v.c = <<>> THEN <<FALSE, <<>> >> ELSE Pat(p.c[1], v.c[1])
    [] p.p = "pair" -> LET a == Pat(p.c[1], v.c[1])  b == Pat(p.c[2], v.c[2])
                       IN <<a[1] /\ b[1], a[2] \o b[2]>>
    [] p.p = "at" -> LET a == Pat(p.c[1], v) IN <<a[1], << <<p.v, v>> >> \o a[2]>>

(* Performed operations, evaluated keys, variables. *)
Done(ops, log, env) == [ops |-> ops, log |-> log, env |-> env, out |-> ""]
Done0(env) == Done(<<>>, <<>>, env)
Nest(ops) == [k |-> "nest", n |-> 0, s |-> <<>>, how |-> "quote", c |-> <<ops>>]

(******************************* evaluation ********************************)
RECURSIVE Expr(_, _), Exprs(_, _), Body(_, _), Elem(_, _), Parts(_, _, _), Arms(_, _, _), Stmts(_, _)

(* [v, log, env] *)
Ret(v, log, env) == [v |-> v, log |-> log, env |-> env]
Expr(e, env) ==
  CASE e.x = "i" -> Ret(VI(e.n), <<>>, env)
    [] e.x = "s" -> Ret(VS(e.s), <<>>, env)
    [] e.x = "b" -> Ret(VB(e.n = 1), <<>>, env)
    [] e.x = "v" -> Ret(Lookup(env, e.v), <<>>, env)
    [] e.x = "ev" -> LET r == Expr(e.c[1], env) IN Ret(r.v, Append(r.log, e.n), r.env)
    [] e.x = "some" -> LET r == Exprs(e.c, env) IN Ret(VO(r.v), r.log, r.env)
    [] e.x = "none" -> Ret(VO(<<>>), <<>>, env)
    [] e.x = "vec" -> LET r == Exprs(e.c, env) IN Ret(VV(r.v), r.log, r.env)
    [] e.x = "pair" -> LET r == Exprs(e.c, env) IN Ret(VP(r.v), r.log, r.env)
    [] e.x = "range" -> Ret(VV([i \in 1..MaxS({0, e.m - e.n}) |-> VI(e.n + i - 1)]), <<>>, env)
    [] e.x = "add" -> LET r == Exprs(e.c, env) IN Ret(VI(r.v[1].n + r.v[2].n), r.log, r.env)
    [] e.x = "lt" -> LET r == Exprs(e.c, env) IN Ret(VB(r.v[1].n < r.v[2].n), r.log, r.env)
    [] e.x = "not" -> LET r == Exprs(e.c, env) IN Ret(VB(r.v[1].n = 0), r.log, r.env)
    [] e.x = "quoted" ->
         LET r == Exprs(e.c, env) IN Ret(VK(<<OQ(0)>> \o Appended(r.v[1]) \o <<CQ>>), r.log, r.env)
    [] e.x = "imp" -> Ret(VK(<<REF(e.n)>>), <<>>, env)
    [] e.x = "reg" -> Ret(VK(<<REG(e.n)>>), <<>>, env)
    [] e.x = "inc" -> LET v == VI(Lookup(env, e.v).n + 1) IN Ret(v, <<>>, Assign(env, e.v, v))
    [] e.x = "next" -> LET it == Lookup(env, e.v).c
                       IN IF it = <<>> THEN Ret(VO(<<>>), <<>>, env)
                          ELSE Ret(VO(<<it[1]>>), <<>>, Assign(env, e.v, VV(Tail(it))))
    [] e.x = "quote" -> LET r == Body(e.body, env)
                        IN Ret(VK(<<Nest(r.ops)>>), r.log, Leave(r.env, env))
    [] e.x = "quote_fn" -> LET r == Body(e.body, env) IN Ret(VK(r.ops), r.log, Leave(r.env, env))
Exprs(c, env) ==
  FoldLeft(LAMBDA a, e : LET r == Expr(e, a.env) IN Ret(Append(a.v, r.v), a.log \o r.log, r.env),
           Ret(<<>>, <<>>, env), c)

And(a, r) == IF a.out # "" THEN a
             ELSE [ops |-> a.ops \o r.ops, log |-> a.log \o r.log, env |-> r.env, out |-> r.out]

(* Quoted code, with the whitespace between its elements. *)
Body(b, env) ==
  LET z == FoldLeft(LAMBDA a, x :
             IF a.r.out # "" THEN a
             ELSE LET w == Element(a.st, x.a, x.b)
                      r == Elem(x, a.r.env)
                  IN [st |-> w[1], r |-> And(a.r, [r EXCEPT !.ops = w[2] \o @])],
             [st |-> IF b.span THEN LSpan(b.a) ELSE L0, r |-> Done0(env)], b.els)
      end == IF b.span THEN Whitespace(z.st, b.b, TRUE) ELSE <<z.st, <<>> >>
  IN IF z.r.out # "" THEN z.r ELSE [z.r EXCEPT !.ops = @ \o end[2] \o Finish(end[1])]

(* The body, or nothing. *)
Opt(bs, env) == IF bs = <<>> THEN Done0(env) ELSE Body(bs[1], env)

(* One iteration for each element, separated; what is bound by the pattern *)
(* and in the body is visible in the separator.                            *)
Loop(x, vs, env) ==
  LET z == FoldLeft(LAMBDA a, i :
             IF a.out = "break" THEN a
             ELSE LET r == Body(x.body, a.env \o Pat(x.p, vs[i])[2])
                      s == IF i < Len(vs) THEN Opt(x.sep, r.env) ELSE Done0(r.env)
                  IN And([a EXCEPT !.out = ""], [And(r, s) EXCEPT !.env = Leave(@, env)]),
             Done0(env), [i \in 1..Len(vs) |-> i])
  IN [z EXCEPT !.out = ""]

Arms(arms, v, env) ==
  IF arms = <<>> THEN Done0(env)
  ELSE LET a == arms[1]
           m == Pat(a.p, v)
       IN IF ~a.on \/ ~m[1] THEN Arms(Tail(arms), v, env)
          ELSE LET g == IF a.g = <<>> THEN Ret(VB(TRUE), <<>>, env \o m[2]) ELSE Expr(a.g[1], env \o m[2])
                   before == Done(<<>>, g.log, Leave(g.env, env))
               IN IF g.v.n = 1
                  THEN LET r == Body(a.body, g.env) IN And(before, [r EXCEPT !.env = Leave(@, env)])
                  ELSE And(before, Arms(Tail(arms), v, before.env))

(* Statements of a scope. *)
Stmts(st, env) ==
  FoldLeft(LAMBDA a, s :
    CASE a.out # "" -> a
      [] s.k = "op" -> [a EXCEPT !.ops = Append(@, I(s.o, s.n, <<>>))]
      [] s.k = "append" -> LET r == Expr(s.e, a.env)
                           IN And(a, Done(Appended(r.v), r.log, r.env))
      [] s.k = "eval" -> LET r == Expr(s.e, a.env) IN And(a, Done(<<>>, r.log, r.env))
      [] s.k = "let" -> LET r == Expr(s.e, a.env)
                        IN And(a, Done(<<>>, r.log, r.env \o Pat(s.p, r.v)[2]))
      [] s.k = "quote_in" -> LET r == Body(s.body, a.env)
                             IN And(a, [r EXCEPT !.env = Leave(@, a.env)])
      [] s.k = "exit" -> LET r == Expr(s.e, a.env)
                         IN And(a, [Done(<<>>, r.log, r.env) EXCEPT !.out = IF r.v.n = 1 THEN s.how ELSE ""]),
    Done0(env), st)

(* Parts of an interpolated string: columns between them are spaces. *)
Parts(parts, from, env) ==
  FoldLeft(LAMBDA a, x :
    LET gap == IF x.a.c > a.at.c THEN <<T([i \in 1..(x.a.c - a.at.c) |-> 32])>> ELSE <<>>
        r == CASE x.k = "tx" -> [Done0(a.r.env) EXCEPT !.ops = IF x.s = <<>> THEN <<>> ELSE <<T(x.s)>>]
               [] x.k = "const" -> LET e == Expr(x.e, a.r.env)
                                   IN Done(Appended(e.v), e.log, e.env)
               [] x.k = "id" -> [Done0(a.r.env) EXCEPT !.ops = <<OE, T(x.s), CE>>]
               [] x.k = "ev" -> LET b == Body(x.body, a.r.env) IN [b EXCEPT !.ops = <<OE>> \o @ \o <<CE>>]
    IN [at |-> x.b, r |-> And(a.r, [r EXCEPT !.ops = gap \o @])],
    [at |-> from, r |-> Done0(env)], parts)

Evaluated(parts) == \E i \in 1..Len(parts) : parts[i].k \in {"id", "ev"}

Elem(x, env) ==
  CASE x.k = "tok" -> [Done0(env) EXCEPT !.ops = IF x.s = <<>> THEN <<>> ELSE <<T(x.s)>>]
    [] x.k = "lit" -> [Done0(env) EXCEPT !.ops = <<OQ(0), T(x.s), CQ>>]
    [] x.k = "ctl" -> [Done0(env) EXCEPT !.ops = << <<SP, PU, LI>>[x.n + 1] >>]
    [] x.k = "expr" -> LET r == Expr(x.e, env) IN Done(Appended(r.v), r.log, r.env)
    [] x.k = "str" ->
         LET r == Parts(x.parts, x.ia, env)
             rest == IF x.ib.c > r.at.c THEN <<T([i \in 1..(x.ib.c - r.at.c) |-> 32])>> ELSE <<>>
         IN [r.r EXCEPT !.ops = <<OQ(IF Evaluated(x.parts) THEN 1 ELSE 0)>> \o @ \o rest \o <<CQ>>,
                        !.env = @]
    [] x.k = "for" -> LET r == Expr(x.e, env)
                      IN And([Done0(env) EXCEPT !.log = r.log], Loop(x, r.v.c, r.env))
    [] x.k = "if" ->
         LET r == Expr(x.e, env)
             m == IF x.p = <<>> THEN <<r.v.n = 1, <<>> >> ELSE Pat(x.p[1], r.v)
             b == IF m[1] THEN Body(x.then, r.env \o m[2]) ELSE Opt(x.els, r.env)
         IN And([Done0(env) EXCEPT !.log = r.log], [b EXCEPT !.env = Leave(@, env)])
    [] x.k = "match" -> LET r == Expr(x.e, env)
                        IN And([Done0(env) EXCEPT !.log = r.log], Arms(x.arms, r.v, r.env))
    [] x.k = "let" -> LET r == Expr(x.e, env)
                      IN Done(<<>>, r.log, r.env \o Pat(x.p, r.v)[2])
    [] x.k = "ref" -> LET r == Stmts(x.st, env) IN [r EXCEPT !.env = Leave(@, env)]

(******************************* rejection *********************************)
(* The first mismatch which is found: bodies inside of an element are      *)
(* looked at before the element itself.                                    *)
RECURSIVE Rejects(_), RejectsIn(_)
First(errs) == LET S == SelectSeq(errs, LAMBDA e : e # NoErr) IN IF S = <<>> THEN NoErr ELSE S[1]
Rejects(b) ==
  LET z == FoldLeft(LAMBDA a, x :
             IF a.err # NoErr THEN a
             ELSE LET i == RejectsIn(x)
                      w == Element(a.st, x.a, x.b)
                  IN IF i # NoErr THEN [a EXCEPT !.err = i]
                     ELSE [st |-> w[1], err |-> w[1].err],
             [st |-> IF b.span THEN LSpan(b.a) ELSE L0, err |-> NoErr], b.els)
  IN z.err
Broken == [dir |-> "line", n |-> 0]
RejectsIn(x) ==
  CASE x.k = "str" ->
         LET z == FoldLeft(LAMBDA a, p :
                    IF a.err # NoErr THEN a
                    ELSE LET i == IF p.k = "ev" THEN Rejects(p.body) ELSE NoErr
                         IN [at |-> p.b, err |-> IF i # NoErr THEN i ELSE IF p.a.l # a.at.l THEN Broken ELSE NoErr],
                    [at |-> x.ia, err |-> NoErr], x.parts)
         IN IF z.err # NoErr THEN z.err ELSE IF x.ib.l # z.at.l THEN Broken ELSE NoErr
    [] x.k = "for" -> First((IF x.sep = <<>> THEN <<>> ELSE <<Rejects(x.sep[1])>>) \o <<Rejects(x.body)>>)
    [] x.k = "if" -> First(<<Rejects(x.then)>> \o (IF x.els = <<>> THEN <<>> ELSE <<Rejects(x.els[1])>>))
    [] x.k = "match" -> First([i \in 1..Len(x.arms) |-> Rejects(x.arms[i].body)])
    [] OTHER -> NoErr

(************************* quotes in quoted code ***************************)
(* Quoting macros in expressions are expanded on their own, after the one  *)
(* they are in has been.                                                   *)
RECURSIVE Macros(_), ElemMacros(_), ExprMacros(_)
UnionOver(seq, op(_)) == UNION {op(seq[i]) : i \in 1..Len(seq)}
Macros(b) == UnionOver(b.els, ElemMacros)
ElemMacros(x) ==
  CASE x.k = "str" -> UnionOver(x.parts, LAMBDA p : CASE p.k = "const" -> ExprMacros(p.e)
                                                     [] p.k = "ev" -> Macros(p.body)
                                                     [] OTHER -> {})
    [] x.k \in {"expr", "let"} -> ExprMacros(x.e)
    [] x.k = "for" -> ExprMacros(x.e) \cup UnionOver(x.sep, Macros) \cup Macros(x.body)
    [] x.k = "if" -> ExprMacros(x.e) \cup Macros(x.then) \cup UnionOver(x.els, Macros)
    [] x.k = "match" -> ExprMacros(x.e) \cup UnionOver(x.arms, LAMBDA a : Macros(a.body) \cup UnionOver(a.g, ExprMacros))
    [] x.k = "ref" -> UnionOver(x.st, LAMBDA s : CASE s.k = "quote_in" -> {s.body}
                                                   [] s.k = "op" -> {}
                                                   [] OTHER -> ExprMacros(s.e))
    [] OTHER -> {}
ExprMacros(e) ==
  CASE e.x \in {"quote", "quote_fn"} -> {e.body}
    [] e.x \in {"ev", "some", "vec", "pair", "add", "lt", "not", "quoted"} -> UnionOver(e.c, ExprMacros)
    [] OTHER -> {}

(* What can be reported for quoted code and the quotes in it. *)
RECURSIVE AllRejects(_)
AllRejects(b) ==
  LET e == Rejects(b)
  IN IF e # NoErr THEN {e} ELSE UNION {AllRejects(m) : m \in Macros(b)}

(***************************** requirements ********************************)
(* Is anything evaluated in a string, anywhere in quoted code, no matter   *)
(* if it is reached? Then the language has to support it.                  *)
RECURSIVE NeedsEval(_), ElemNeeds(_)
NeedsEval(b) == \/ \E i \in 1..Len(b.els) : ElemNeeds(b.els[i])
                \/ \E m \in Macros(b) : NeedsEval(m)
AnyNeeds(bs) == \E i \in 1..Len(bs) : NeedsEval(bs[i])
ElemNeeds(x) ==
  CASE x.k = "str" -> Evaluated(x.parts)
    [] x.k = "for" -> AnyNeeds(x.sep) \/ NeedsEval(x.body)
    [] x.k = "if" -> NeedsEval(x.then) \/ AnyNeeds(x.els)
    [] x.k = "match" -> \E i \in 1..Len(x.arms) : NeedsEval(x.arms[i].body)
    [] OTHER -> FALSE
=============================================================================
