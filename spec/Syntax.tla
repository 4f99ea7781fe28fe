------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The language of quoted code: which tokens form what elements (see       *)
(* Template), and what is not a quote. Tokens are a sequence of trees with *)
(* positions a and b in the source:                                        *)
(*   d    a dollar sign          id   a name v       kw  a keyword v       *)
(*   ls   a string literal, value w                  ch  a character w     *)
(*   int  the number w           p    punctuation v                        *)
(*   g    a group v \in {"(", "[", "{"} of the trees c                     *)
(* All of them have their source text s (groups: of the delimiters).       *)
(*                                                                         *)
(* What is read has a verdict: ok, bad (it must be rejected when compiled) *)
(* or open (a Rust expression or pattern which is not specified here).     *)
(* Names have types, since wrong ones are rejected as well.                *)
(***************************************************************************)
EXTENDS Template

Worse(a, b) == IF "bad" \in {a, b} THEN "bad" ELSE IF "open" \in {a, b} THEN "open" ELSE "ok"
From(ts, i) == SubSeq(ts, i, Len(ts))
Is(ts, i, k) == i <= Len(ts) /\ ts[i].k = k
IsG(ts, i, v) == Is(ts, i, "g") /\ ts[i].v = v
IsP(ts, i, v) == Is(ts, i, "p") /\ ts[i].v = v
IsKw(ts, i, v) == Is(ts, i, "kw") /\ ts[i].v = v
IsId(ts, i, v) == Is(ts, i, "id") /\ ts[i].v = v

\* "open" after a binding which is not specified
Anything == << <<"", "open">> >>
TypeOf(ty, v) == IF \E i \in 1..Len(ty) : ty[i][2] = "open" THEN "open" ELSE IF \E i \in 1..Len(ty) : ty[i][1] = v THEN Lookup(ty, v) ELSE "none"
Formattable == {"i", "s"}

(* Expressions: [v, n trees used, e, t type]. Only names and literals are  *)
(* specified; what starts like another expression is open.                 *)
Unread(v) == [v |-> v, n |-> 0, e |-> [x |-> "i", n |-> 0], t |-> "none"]
Simple1(ts, i, ty) ==
  IF i > Len(ts) THEN Unread("bad")
  ELSE LET x == ts[i] IN
  CASE x.k \in {"d", "p"} -> Unread("bad")
    [] x.k = "g" -> Unread("open")
    [] x.k = "kw" -> Unread(IF x.v \in {"in", "else", "ref"} THEN "bad" ELSE "open")
    [] IsG(ts, i + 1, "(") \/ IsG(ts, i + 1, "[") -> Unread("open")
    [] x.k = "id" -> LET t == TypeOf(ty, x.v)
                     IN [v |-> IF t = "none" THEN "bad" ELSE IF t = "open" THEN "open" ELSE "ok", n |-> 1, e |-> [x |-> "v", v |-> x.v], t |-> t]
    [] x.k = "ls" -> [v |-> "ok", n |-> 1, e |-> [x |-> "s", s |-> x.w], t |-> "s"]
    [] x.k = "int" -> [v |-> "ok", n |-> 1, e |-> [x |-> "i", n |-> x.w], t |-> "i"]
    [] OTHER -> [v |-> "ok", n |-> 1, e |-> [x |-> "i", n |-> 0], t |-> "c"]

(* Patterns: [v, n, p, ty names bound, any matches everything, t type of   *)
(* what is matched, or ""]                                                 *)
Pattern(ts, i, t) ==
  LET no(v) == [v |-> v, n |-> 0, p |-> [p |-> "_"], ty |-> <<>>, any |-> TRUE, t |-> ""]
  IN IF i > Len(ts) THEN no("bad")
     ELSE LET x == ts[i] IN
     CASE x.k = "g" -> no("open")
       [] x.k = "kw" -> no(IF x.v \in {"in", "else", "if", "for", "match", "let"} THEN "bad" ELSE "open")
       [] x.k = "p" /\ x.v = "_" -> [no("ok") EXCEPT !.n = 1]
       [] x.k \in {"d", "p"} -> no("bad")
       [] Is(ts, i + 1, "g") -> no("bad")
       [] x.k = "id" -> [no("ok") EXCEPT !.n = 1, !.p = [p |-> "id", v |-> x.v], !.ty = << <<x.v, t>> >>]
       [] x.k = "ls" -> [no("ok") EXCEPT !.n = 1, !.p = [p |-> "str", s |-> x.w], !.any = FALSE, !.t = "s"]
       [] x.k = "int" -> [no("ok") EXCEPT !.n = 1, !.p = [p |-> "int", n |-> x.w], !.any = FALSE, !.t = "i"]
       [] OTHER -> [no("ok") EXCEPT !.n = 1, !.any = FALSE, !.t = "c"]

(* [v, els, ty] *)
Read0(v, ty) == [v |-> v, els |-> <<>>, ty |-> ty]
One(v, el, ty) == [v |-> v, els |-> <<el>>, ty |-> ty]
Then(a, b) == [v |-> Worse(a.v, b.v), els |-> a.els \o b.els, ty |-> b.ty]
Tok(s, a, b) == [k |-> "tok", s |-> s, a |-> a, b |-> b]
Right(p) == At(p.l, p.c + 1)
Left(p) == At(p.l, p.c - 1)
Opening(x) == Tok(<<x.s[1]>>, x.a, Right(x.a))
Closing(x) == Tok(<<x.s[2]>>, Left(x.b), x.b)
Code(r) == [els |-> r.els, span |-> FALSE, a |-> At(0, 0), b |-> At(0, 0)]
Within(r, g) == [els |-> r.els, span |-> TRUE, a |-> Right(g.a), b |-> Left(g.b)]

RECURSIVE Quote(_, _), Control(_, _, _, _), InString(_, _), ArmsOf(_, _, _)

(* Up to the first comma. *)
Comma(ts, i) == LET S == {j \in i..Len(ts) : ts[j].k = "p" /\ ts[j].v = ","}
                IN IF S = {} THEN Len(ts) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k

Quote(ts, ty) ==
  IF ts = <<>> THEN Read0("ok", ty)
  ELSE LET x == ts[1] IN
  IF x.k = "d" /\ Is(ts, 2, "d")
  THEN Then(One("ok", Tok(<<36>>, x.a, ts[2].b), ty), Quote(From(ts, 3), ty))
  ELSE IF x.k = "d" /\ Is(ts, 2, "id")
  THEN LET t == TypeOf(ty, ts[2].v)
       IN Then(One(IF t \in Formattable THEN "ok" ELSE IF t = "open" THEN "open" ELSE "bad",
                   [k |-> "expr", e |-> [x |-> "v", v |-> ts[2].v], a |-> x.a, b |-> ts[2].b], ty),
               Quote(From(ts, 3), ty))
  ELSE IF x.k = "d" /\ IsG(ts, 2, "(")
  THEN LET r == Control(ts[2].c, ty, x.a, ts[2].b) IN Then(r, Quote(From(ts, 3), r.ty))
  ELSE IF x.k = "d" /\ IsG(ts, 2, "[")
  THEN LET name == ts[2].c
           args == IsG(ts, 3, "(")
       IN IF Len(name) # 1 THEN Read0("bad", ty)
          ELSE IF IsId(name, 1, "str") /\ args
          THEN LET r == InString(ts[3].c, ty)
               IN Then(One(r.v, [k |-> "str", parts |-> r.els, a |-> x.a, b |-> ts[3].b,
                                 ia |-> Right(ts[3].a), ib |-> Left(ts[3].b)], r.ty),
                       Quote(From(ts, 4), r.ty))
          ELSE IF Is(name, 1, "ch") /\ name[1].w \in {32, 13, 10} /\ ~args
          THEN Then(One("ok", [k |-> "ctl", n |-> CASE name[1].w = 32 -> 0 [] name[1].w = 13 -> 1 [] OTHER -> 2,
                               a |-> x.a, b |-> ts[2].b], ty),
                    Quote(From(ts, 3), ty))
          ELSE Read0("bad", ty)
  ELSE IF x.k = "ls"
  THEN Then(One("ok", [k |-> "lit", s |-> x.w, a |-> x.a, b |-> x.b], ty), Quote(From(ts, 2), ty))
  ELSE IF x.k = "g"
  THEN LET r == Quote(x.c, ty)
       IN Then(Then(Then(One("ok", Opening(x), ty), r), One("ok", Closing(x), r.ty)), Quote(From(ts, 2), r.ty))
  ELSE Then(One("ok", Tok(x.s, x.a, x.b), ty), Quote(From(ts, 2), ty))

(* What is in $(..). *)
Control(ts, ty, a, b) ==
  LET at == [a |-> a, b |-> b]
      bad == Read0("bad", ty)
      \* a body at i which ends the construct
      rest(i, t) == IF IsP(ts, i, "=>") THEN Quote(From(ts, i + 1), t)
                    ELSE IF IsG(ts, i, "{") /\ i = Len(ts) THEN Quote(ts[i].c, t) ELSE Read0("bad", t)
  IN
  IF IsKw(ts, 1, "if")
  THEN LET c == Simple1(ts, 2, ty)
           alt == IsG(ts, 3, "{") /\ IsKw(ts, 4, "else") /\ IsG(ts, 5, "{") /\ Len(ts) = 5
           t == IF alt THEN Quote(ts[3].c, ty) ELSE rest(3, ty)
           e == IF alt THEN Quote(ts[5].c, ty) ELSE Read0("ok", ty)
       IN IF c.v # "ok" THEN Read0(c.v, ty)
          ELSE [One(IF c.t = "b" THEN Worse(t.v, e.v) ELSE "bad",
                    [k |-> "if", p |-> <<>>, e |-> c.e, then |-> Code(t), els |-> IF alt THEN <<Code(e)>> ELSE <<>>] @@ at, ty)
                EXCEPT !.ty = ty]
  ELSE IF IsKw(ts, 1, "for")
  THEN LET p == Pattern(ts, 2, "i")
           e == Simple1(ts, 4, ty)
           joined == IsId(ts, 5, "join") /\ IsG(ts, 6, "(")
           r == rest(IF joined THEN 7 ELSE 5, ty \o p.ty)
           s == IF joined THEN Quote(ts[6].c, r.ty) ELSE Read0("ok", ty)
       IN IF p.v # "ok" \/ ~IsKw(ts, 3, "in") THEN Read0(IF p.v = "open" THEN "open" ELSE "bad", ty)
          ELSE IF e.v # "ok" THEN Read0(e.v, ty)
          ELSE One(IF p.any /\ e.t = "xi" THEN Worse(r.v, s.v) ELSE "bad",
                   [k |-> "for", p |-> p.p, e |-> e.e, sep |-> IF joined THEN <<Within(s, ts[6])>> ELSE <<>>,
                    body |-> Code(r)] @@ at, ty)
  ELSE IF IsKw(ts, 1, "match")
  THEN LET e == Simple1(ts, 2, ty)
       IN IF e.v # "ok" THEN Read0(e.v, ty)
          ELSE IF ~(IsG(ts, 3, "{") /\ Len(ts) = 3) THEN bad
          ELSE LET arms == ArmsOf(ts[3].c, ty, e.t)
               IN One(IF arms.v = "ok" /\ \A i \in 1..Len(arms.els) : ~arms.els[i].any THEN "bad" ELSE arms.v,
                      [k |-> "match", e |-> e.e, arms |-> [i \in 1..Len(arms.els) |-> arms.els[i].arm]] @@ at, ty)
  ELSE IF IsKw(ts, 1, "let")
  THEN LET e == Simple1(ts, 4, ty)
           p == Pattern(ts, 2, e.t)
       IN IF p.v # "ok" \/ ~IsP(ts, 3, "=") THEN Read0(IF p.v = "open" THEN "open" ELSE "bad", ty \o Anything)
          ELSE IF e.v # "ok" THEN Read0(e.v, ty \o Anything)
          ELSE One(IF p.any /\ Len(ts) = 4 THEN "ok" ELSE "bad",
                   [k |-> "let", p |-> p.p, e |-> e.e] @@ at, ty \o p.ty)
  ELSE IF IsKw(ts, 1, "ref")
  THEN LET name == Is(ts, 2, "id") \/ IsP(ts, 2, "_")
           empty == \/ IsP(ts, 3, "=>") /\ Len(ts) = 3
                    \/ IsG(ts, 3, "{") /\ Len(ts) = 3 /\ ts[3].c = <<>>
           form == IsP(ts, 3, "=>") \/ (IsG(ts, 3, "{") /\ Len(ts) = 3)
       IN One(IF ~name \/ ~form THEN "bad" ELSE IF empty THEN "ok" ELSE "open", [k |-> "ref", st |-> <<>>] @@ at, ty)
  ELSE IF Len(ts) = 1 /\ Is(ts, 1, "ls")
  THEN One("ok", Tok(ts[1].w, a, b), ty)
  ELSE LET e == Simple1(ts, 1, ty)
       IN IF e.v # "ok" THEN Read0(e.v, ty)
          ELSE One(IF Len(ts) = 1 /\ e.t \in Formattable THEN "ok"
                   ELSE IF Is(ts, 2, "g") THEN "open" ELSE "bad", [k |-> "expr", e |-> e.e] @@ at, ty)

(* Arms: els are [arm, any]. *)
ArmsOf(ts, ty, t) ==
  IF ts = <<>> THEN Read0("ok", ty)
  ELSE LET p == Pattern(ts, 1, t)
           guarded == IsKw(ts, 2, "if")
           g == Simple1(ts, 3, ty \o p.ty)
           i == IF guarded THEN 4 ELSE 2
           inner == ty \o p.ty
           brace == IsG(ts, i + 1, "{")
           paren == IsG(ts, i + 1, "(")
           end == IF brace \/ paren THEN i + 2 ELSE Comma(ts, i + 1)
           body == IF brace \/ paren THEN Quote(ts[i + 1].c, inner) ELSE Quote(SubSeq(ts, i + 1, end - 1), inner)
           code == IF paren THEN Within(body, ts[i + 1]) ELSE Code(body)
           next == IF IsP(ts, end, ",") THEN end + 1 ELSE end
           typed == p.t \in {"", t} /\ (guarded => g.t = "b")
           more == ArmsOf(From(ts, next), ty, t)
       IN IF p.v # "ok" THEN Read0(p.v, ty)
          ELSE IF guarded /\ g.v # "ok" THEN Read0(g.v, ty)
          ELSE IF ~IsP(ts, i, "=>") THEN Read0(IF guarded /\ Is(ts, i, "g") THEN "open" ELSE "bad", ty)
          ELSE Then(One(IF typed THEN body.v ELSE "bad",
                        [arm |-> [p |-> p.p, g |-> IF guarded THEN <<g.e>> ELSE <<>>, body |-> code, on |-> TRUE],
                         any |-> p.any /\ ~guarded], ty), more)

(* What is in $[str](..): parts. *)
InString(ts, ty) ==
  IF ts = <<>> THEN Read0("ok", ty)
  ELSE LET x == ts[1]
           tx(s, a, b) == [k |-> "tx", s |-> s, a |-> a, b |-> b]
       IN
  IF x.k = "d" /\ Is(ts, 2, "d")
  THEN Then(One("ok", tx(<<36>>, x.a, ts[2].b), ty), InString(From(ts, 3), ty))
  ELSE IF x.k = "d" /\ Is(ts, 2, "id")
  THEN Then(One("ok", [k |-> "id", s |-> ts[2].s, a |-> x.a, b |-> ts[2].b], ty), InString(From(ts, 3), ty))
  ELSE IF x.k = "d" /\ IsG(ts, 2, "(")
  THEN LET r == Quote(ts[2].c, ty)
       IN Then(One(r.v, [k |-> "ev", body |-> Within(r, ts[2]), a |-> x.a, b |-> ts[2].b], r.ty),
               InString(From(ts, 3), r.ty))
  ELSE IF x.k = "d" /\ IsG(ts, 2, "[")
  THEN IF Len(ts[2].c) # 1 \/ ~IsKw(ts[2].c, 1, "const") \/ ~IsG(ts, 3, "(") THEN Read0("bad", ty)
       ELSE LET c == ts[3].c
                e == Simple1(c, 1, ty)
                more == InString(From(ts, 4), ty)
            IN IF Len(c) = 1 /\ Is(c, 1, "ls") THEN Then(One("ok", tx(c[1].w, x.a, ts[3].b), ty), more)
               ELSE IF e.v # "ok" THEN Then(Read0(e.v, ty), more)
               ELSE Then(One(IF Len(c) = 1 /\ e.t \in Formattable THEN "ok" ELSE IF Is(c, 2, "g") THEN "open" ELSE "bad",
                             [k |-> "const", e |-> e.e, a |-> x.a, b |-> ts[3].b], ty), more)
  ELSE IF x.k = "d" THEN Read0("bad", ty)
  ELSE IF x.k = "g"
  THEN LET r == InString(x.c, ty)
       IN Then(Then(Then(One("ok", tx(<<x.s[1]>>, x.a, Right(x.a)), ty), r),
                    One("ok", tx(<<x.s[2]>>, Left(x.b), x.b), r.ty)), InString(From(ts, 2), r.ty))
  ELSE Then(One("ok", tx(x.s, x.a, x.b), ty), InString(From(ts, 2), ty))

(***************************** declarative *********************************)
(* Runs of dollar signs: pairs of them are text; one that is left over     *)
(* belongs to what follows.                                                *)
Before(ts, i) == LET S == {j \in 1..(i-1) : ts[j].k # "d"}
                 IN i - 1 - MaxS(S \cup {0})
Leads(ts, i) == ts[i].k = "d" /\ Before(ts, i) % 2 = 0 /\ ~Is(ts, i + 1, "d")
Function(ts, i) == Leads(ts, i) /\ IsG(ts, i + 1, "[")
Interpolates(ts, i) == Leads(ts, i) /\ (Is(ts, i + 1, "id") \/ IsG(ts, i + 1, "("))
NameOf(ts, i) == IF Len(ts[i + 1].c) = 1 THEN ts[i + 1].c[1] ELSE [k |-> "none", v |-> "", w |-> 0]
GoodFunction(ts, i) ==
  \/ NameOf(ts, i).k = "id" /\ NameOf(ts, i).v = "str" /\ IsG(ts, i + 2, "(")
  \/ NameOf(ts, i).k = "ch" /\ NameOf(ts, i).w \in {32, 10, 13} /\ ~IsG(ts, i + 2, "(")
=============================================================================
