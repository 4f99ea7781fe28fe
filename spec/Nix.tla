--------------------------------- MODULE Nix --------------------------------
(***************************************************************************)
(* Nix: what a file uses, transitively through the values of variables,    *)
(* and what has to be declared for it. An import is [f, a, v]: kind,       *)
(* arguments, and the program of the value of a variable.                  *)
(***************************************************************************)
EXTENDS Render, Langs

RangeOf(s) == {s[k] : k \in 1..Len(s)}
Direct(prog) == RangeOf(Imports(Spec(prog)))

RECURSIVE Close(_, _)
Close(S, imps) ==
  LET N == S \cup UNION {IF imps[n].f = "variable" THEN Direct(imps[n].v) ELSE {} : n \in S}
  IN IF N = S THEN S ELSE Close(N, imps)
Uses(prog, imps) == Close(Direct(prog), imps)

NameOf(x) == IF x.f \in {"inherit", "with"} THEN x.a[2] ELSE x.a[1]
Names(imps) == [k \in 1..Len(imps) |-> NameOf(imps[k])]

Root(path) ==
  LET P == {k \in 1..Len(path) : path[k] = 46}
  IN IF P = {} THEN path ELSE SubSeq(path, 1, (CHOOSE k \in P : \A j \in P : k <= j) - 1)
Kind(S, imps, f) == {imps[n] : n \in {m \in S : imps[m].f = f}}

Arguments(S, imps) ==
  {x.a[1] : x \in Kind(S, imps, "argument")}
  \cup {Root(x.a[1]) : x \in Kind(S, imps, "inherit") \cup Kind(S, imps, "with")}
Withs(S, imps) == {x.a[1] : x \in Kind(S, imps, "with")}

KwInherit == <<105, 110, 104, 101, 114, 105, 116, 32, 40>>
(* The text of the entries of the let block. *)
Entry(x, imps, cfg) ==
  IF x.f = "inherit" THEN KwInherit \o x.a[1] \o <<41, 32>> \o x.a[2] \o <<59>>
  ELSE LET items == <<IND(1), T(x.a[1]), SP, T(<<61>>), SP>>
           whole == RunFrom(items, Norm(Flat(x.v)) \o <<T(<<59>>)>>)
           m == Format(whole, LangRec("nix"), Names(imps), cfg)
           t == Concrete(m.out, cfg)
       IN SubSeq(t, Len(cfg.unit) + 1, Len(t))
Entries(S, imps, cfg) ==
  {Entry(x, imps, cfg) : x \in Kind(S, imps, "inherit") \cup Kind(S, imps, "variable")}

(* Is every name which is written in the file declared? (theorem about the *)
(* sets above: args, withs and entries cover everything which is used)     *)
Covered(S, imps) ==
  \A n \in S :
    LET x == imps[n] IN
    CASE x.f = "argument" -> x.a[1] \in Arguments(S, imps)
      [] x.f = "inherit" -> Root(x.a[1]) \in Arguments(S, imps)
      [] x.f = "with" -> x.a[1] \in Withs(S, imps) /\ Root(x.a[1]) \in Arguments(S, imps)
      [] x.f = "variable" -> Direct(x.v) \subseteq S
=============================================================================
