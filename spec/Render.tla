------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Formatting of a stream (src/fmt/formatter.rs): pending whitespace,      *)
(* indentation, nested strings and evaluations. Output is a sequence of    *)
(* code points in which NL stands for a line terminator and TAB1 for one   *)
(* unit of indentation, so that it does not depend on the configuration.   *)
(*                                                                         *)
(* A language is described by a record                                     *)
(*   oq, cq    what opens and closes a string: <<plain, evaluated>>        *)
(*   es, ee    what starts and ends an evaluation                          *)
(*   ls, le    the same for the evaluation of a single literal             *)
(*   esc       how text in strings is escaped                              *)
(*   nq        what opens and closes a string nested in the text of another *)
(*   lid       (optional) TRUE if a literal which is not an identifier is   *)
(*             evaluated like other expressions                             *)
(*   besc      (optional) how text is escaped in strings which are part of   *)
(*             the source of a nested string                                *)
(***************************************************************************)
EXTENDS Stream

NL == -1
TAB1 == -2

CONSTANT Escape(_, _)     \* (mode, text) -> escaped text

Rep(x, n) == [i \in 1..n |-> x]
MaxOf(a, b) == IF a > b THEN a ELSE b

(* cfg: unit and newline, as sequences of code points. *)
Concrete(out, cfg) ==
  IF \A i \in 1..Len(out) : out[i] >= 0 THEN out
  ELSE FoldLeft(LAMBDA acc, c :
         IF c = NL THEN acc \o cfg.nl
         ELSE IF c = TAB1 THEN acc \o cfg.unit
         ELSE Append(acc, c), <<>>, out)

(* A context is one formatter: the outermost one, or one which buffers a   *)
(* string that is nested in the text of another string.                    *)
Frame(e) == [q |-> FALSE, e |-> 0, eval |-> e]
Ctx0 == [out |-> <<>>, line |-> "initial", sp |-> 0, ind |-> 0,
         st |-> <<Frame(FALSE)>>]

FPush(c) == [c EXCEPT !.sp = 0,
                      !.line = IF @ \in {"initial", "line"} THEN @ ELSE "push"]
FLine(c) == [c EXCEPT !.sp = 0,
                      !.line = IF @ = "initial" THEN @ ELSE "line"]
FSpace(c) == [c EXCEPT !.sp = @ + 1]
FInd(c, n) == IF n = 0 THEN c ELSE [FPush(c) EXCEPT !.ind = @ + n]

FWrite(c, s) ==
  IF s = <<>> THEN c
  ELSE LET nls == CASE c.line = "push" -> 1 [] c.line = "line" -> 2 [] OTHER -> 0
           tabs == IF c.line = "none" THEN 0 ELSE MaxOf(c.ind, 0)
       IN [c EXCEPT !.out = @ \o Rep(NL, nls) \o Rep(TAB1, tabs) \o Rep(32, c.sp) \o s,
                    !.line = "none", !.sp = 0]

Top(c) == c.st[Len(c.st)]
SetTop(c, f) == [c EXCEPT !.st[Len(c.st)] = f]

IsIdent(s) == LET start(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
              IN s # <<>> /\ start(s[1]) /\ \A k \in 1..Len(s) : start(s[k]) \/ s[k] \in 48..57
Simple(L, s) == "lid" \notin DOMAIN L \/ ~L.lid \/ IsIdent(s)

(* State: contexts, number of items to skip, and if an error was raised.   *)
R0 == [cs |-> <<Ctx0>>, skip |-> 0, err |-> FALSE]

Cur(r) == r.cs[Len(r.cs)]
SetCur(r, c) == [r EXCEPT !.cs[Len(r.cs)] = c]
Fail(r) == [r EXCEPT !.err = TRUE]
Buffered(r) == Len(r.cs) > 1

(* In a buffer strings are source text of the language. *)
SrcEsc(L) == IF "besc" \in DOMAIN L THEN L.besc ELSE L.esc
TextEsc(r, L) == IF Buffered(r) THEN SrcEsc(L) ELSE L.esc
Opens(r, L, n) == IF Buffered(r) THEN L.nq[1] ELSE L.oq[n + 1]
Closes(r, L, n) == IF Buffered(r) THEN L.nq[2] ELSE L.cq[n + 1]

(* Finish the innermost buffer and write it as the text of its parent. *)
CloseBuf(r, L, cfg) ==
  LET b == FWrite(Cur(r), L.nq[2])
      parent == r.cs[Len(r.cs) - 1]
      txt == Escape(IF Len(r.cs) > 2 THEN SrcEsc(L) ELSE L.esc, Concrete(b.out, cfg))
  IN [r EXCEPT !.cs = Append(SubSeq(r.cs, 1, Len(r.cs) - 2), FWrite(parent, txt))]

RStep(r, items, i, L, imps, cfg) ==
  LET x == items[i]
      c == Cur(r)
      f == Top(c)
  IN
  IF r.err THEN r
  ELSE IF r.skip > 0 THEN [r EXCEPT !.skip = @ - 1]
  ELSE
  CASE x.k = "reg" -> r
    [] x.k = "t" ->
         SetCur(r, FWrite(c, IF f.q THEN Escape(TextEsc(r, L), x.s) ELSE x.s))
    [] x.k = "oq" ->
         IF Buffered(r) /\ x.n = 1 THEN Fail(r)
         ELSE IF ~f.q
         THEN SetCur(r, FWrite(SetTop(c, [f EXCEPT !.q = TRUE, !.e = x.n]), Opens(r, L, x.n)))
         ELSE IF x.n = 0
         THEN [r EXCEPT !.cs = Append(@, FWrite(Ctx0, L.nq[1]))]
         ELSE Fail(r)
    [] x.k = "cq" ->
         IF f.q
         THEN SetCur(r, FWrite(SetTop(c, [f EXCEPT !.q = FALSE, !.e = 0]), Closes(r, L, f.e)))
         ELSE IF Buffered(r) THEN CloseBuf(r, L, cfg)
         ELSE Fail(r)
    [] x.k = "oe" ->
         IF ~f.q \/ Buffered(r) THEN Fail(r)
         ELSE IF i + 2 <= Len(items) /\ items[i+1].k = "t" /\ items[i+2].k = "ce"
         THEN LET t == items[i+1].s
                  w == IF Simple(L, t) THEN L.ls \o t \o L.le ELSE L.es \o t \o L.ee
              IN [SetCur(r, FWrite(c, w)) EXCEPT !.skip = 2]
         ELSE LET c2 == FWrite(c, L.es)
              IN SetCur(r, [c2 EXCEPT !.st = Append(@, Frame(TRUE))])
    [] x.k = "ce" ->
         IF f.eval /\ ~f.q
         THEN LET c2 == FWrite(c, L.ee) IN SetCur(r, [c2 EXCEPT !.st = Front(@)])
         ELSE Fail(r)
    [] x.k = "ref" -> SetCur(r, FWrite(c, imps[x.n]))
    [] x.k = "pu" -> SetCur(r, FPush(c))
    [] x.k = "li" -> SetCur(r, FLine(c))
    [] x.k = "sp" -> SetCur(r, FSpace(c))
    [] x.k = "ind" -> SetCur(r, FInd(c, x.n))
    [] OTHER -> Fail(r)

RECURSIVE CloseAll(_, _, _)
CloseAll(r, L, cfg) == IF Buffered(r) THEN CloseAll(CloseBuf(r, L, cfg), L, cfg) ELSE r

(* With a formatter which was used before. *)
FormatFrom(c0, items, L, imps, cfg) ==
  LET idx == [i \in 1..Len(items) |-> i]
      r == FoldLeft(LAMBDA a, i : RStep(a, items, i, L, imps, cfg),
                    [R0 EXCEPT !.cs = <<[c0 EXCEPT !.st = <<Frame(FALSE)>>]>>], idx)
      open == Buffered(r) \/ Len(r.cs[1].st) > 1 \/ Top(r.cs[1]).q
  IN IF r.err THEN [res |-> "err", open |-> FALSE, out |-> <<>>, end |-> r.cs[1]]
     ELSE LET z == CloseAll(r, L, cfg)
          IN [res |-> "ok", open |-> open, out |-> z.cs[1].out, end |-> z.cs[1]]

Format(items, L, imps, cfg) == FormatFrom(Ctx0, items, L, imps, cfg)

(* Uses of one writer: streams and files which are formatted, text written *)
(* to the formatter, the formatter being replaced by a new one, and text   *)
(* which is written to the writer itself before that.                      *)
Chain0 == [c |-> Ctx0, res |-> "ok", open |-> FALSE]
Link(a, p, L, imps, cfg) ==
  IF a.res = "err" \/ a.open THEN a
  ELSE CASE p.k \in {"fmt", "file"} ->
              LET m == FormatFrom(a.c, Norm(Flat(p.p)), L, imps, cfg)
              IN [c |-> IF p.k = "file" THEN [m.end EXCEPT !.out = Append(@, NL)]
                        ELSE m.end,
                  res |-> m.res, open |-> m.open]
         [] p.k = "w" -> [a EXCEPT !.c = FWrite(@, p.s)]
         [] p.k = "new" -> [a EXCEPT !.c = [Ctx0 EXCEPT !.out = a.c.out]]
         [] p.k = "raw" -> [a EXCEPT !.c = [Ctx0 EXCEPT !.out = a.c.out \o p.s]]
Chain(parts, L, imps, cfg) ==
  LET z == FoldLeft(LAMBDA a, p : Link(a, p, L, imps, cfg), Chain0, parts)
  IN [res |-> z.res, open |-> z.open, out |-> z.c.out]

(* Lines of an output. *)
SplitLines(out) ==
  FoldLeft(LAMBDA acc, c :
             IF c = NL THEN Append(acc, <<>>)
             ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)],
           << <<>> >>, out)
LinesOf(out, cfg) ==
  LET ls == SplitLines(out) IN [i \in 1..Len(ls) |-> Concrete(ls[i], cfg)]

(************************** declarative rendering **************************)
(* For streams without strings: text separated by what was requested.      *)

Txt(x, imps) == IF x.k = "t" THEN x.s ELSE IF x.k = "ref" THEN imps[x.n] ELSE <<>>

Between(items, i, j) ==
  (* what separates the texts of items i < j (i = 0: start), in items *)
  LET g == SubSeq(items, i + 1, j - 1)
      b == LastIdx(g, {"pu", "li", "ind"})
      has(ks) == \E x \in 1..Len(g) : g[x].k \in ks
      sps == Cardinality({x \in (b+1)..Len(g) : g[x].k = "sp"})
      nls == IF i = 0 THEN 0 ELSE IF has({"li"}) THEN 2 ELSE IF has({"pu", "ind"}) THEN 1 ELSE 0
      lvl == IF i = 0 \/ nls > 0 THEN MaxOf(0, SumInd(SubSeq(items, 1, j))) ELSE 0
  IN Rep(NL, nls) \o Rep(TAB1, lvl) \o Rep(32, sps)

RenderDecl(items, imps) ==
  LET vis == SelectSeq([i \in 1..Len(items) |-> i],
                       LAMBDA i : Txt(items[i], imps) # <<>>)
  IN FlattenSeq([v \in 1..Len(vis) |->
       Between(items, IF v = 1 THEN 0 ELSE vis[v-1], vis[v]) \o Txt(items[vis[v]], imps)])
=============================================================================
