-------------------------------- MODULE Hooks -------------------------------
(***************************************************************************)
(* How formatting uses the functions which a language defines (lang::Lang  *)
(* and lang::LangItem): the machine of Render, which also records every    *)
(* call as an event                                                        *)
(*   open, close   a string is opened or closed (n: is it evaluated)       *)
(*   text          text of a string (s)                                    *)
(*   lit           a literal is evaluated (s)                              *)
(*   start, end    an evaluation starts or ends                            *)
(*   item          a reference is written (n)                              *)
(*   code          text outside of strings, which no function is called for *)
(* A language with dl does not define how a literal is evaluated.          *)
(***************************************************************************)
EXTENDS Render

Ev(h, n, s) == [h |-> h, n |-> n, s |-> s]
IsDl(L) == "dl" \in DOMAIN L /\ L.dl

HEvents(r, items, i, L, imps, cfg) ==
  LET x == items[i]
      f == Top(Cur(r))
  IN IF r.err \/ r.skip > 0 \/ RStep(r, items, i, L, imps, cfg).err THEN <<>>
  ELSE
  CASE x.k = "t" -> << Ev(IF f.q THEN "text" ELSE "code", 0, x.s) >>
    [] x.k = "oq" -> << Ev("open", IF f.q THEN 0 ELSE x.n, <<>>) >>
    [] x.k = "cq" ->
         IF f.q THEN << Ev("close", f.e, <<>>) >>
         ELSE << Ev("close", 0, <<>>),
                 Ev("text", 0, Concrete(FWrite(Cur(r), L.nq[2]).out, cfg)) >>
    [] x.k = "oe" ->
         IF i + 2 <= Len(items) /\ items[i+1].k = "t" /\ items[i+2].k = "ce"
         THEN IF IsDl(L) THEN << Ev("start", 0, <<>>), Ev("code", 0, items[i+1].s), Ev("end", 0, <<>>) >>
              ELSE << Ev("lit", 0, items[i+1].s) >>
         ELSE << Ev("start", 0, <<>>) >>
    [] x.k = "ce" -> << Ev("end", 0, <<>>) >>
    [] x.k = "ref" -> << Ev("item", x.n, <<>>) >>
    [] OTHER -> <<>>

HooksFrom(c0, items, L, imps, cfg) ==
  FoldLeft(LAMBDA a, i : [r |-> RStep(a.r, items, i, L, imps, cfg),
                          ev |-> a.ev \o HEvents(a.r, items, i, L, imps, cfg)],
           [r |-> [R0 EXCEPT !.cs = <<[c0 EXCEPT !.st = <<Frame(FALSE)>>]>>], ev |-> <<>>],
           [i \in 1..Len(items) |-> i]).ev
Hooks(items, L, imps, cfg) == HooksFrom(Ctx0, items, L, imps, cfg)

(* In how many calls a text is handed over does not matter. *)
Merged(evs) ==
  FoldLeft(LAMBDA a, e :
             IF e.h = "text" /\ e.s = <<>> THEN a
             ELSE IF e.h = "text" /\ a # <<>> /\ Last(a).h = "text"
             THEN [a EXCEPT ![Len(a)].s = @ \o e.s]
             ELSE Append(a, e), <<>>, evs)
Calls(evs) == Merged(SelectSeq(evs, LAMBDA e : e.h # "code"))

(* Calls which were made before something failed. *)
IsPart(a, b) ==
  \/ a = <<>>
  \/ /\ Len(a) <= Len(b)
     /\ Front(a) = SubSeq(b, 1, Len(a) - 1)
     /\ \/ Last(a) = b[Len(a)]
        \/ /\ Last(a).h = "text" /\ b[Len(a)].h = "text"
           /\ IsPrefix(Last(a).s, b[Len(a)].s)

(*************************** what the events say ***************************)
(* Declarative: what is written for a sequence of events, where the events *)
(* of a string inside of the text of another one are part of the text      *)
(* which follows them.                                                     *)
RECURSIVE Skip(_, _, _)
Skip(ev, i, d) ==   \* the end of the string which starts at i
  LET e == IF ev[i].h = "open" THEN d + 1 ELSE IF ev[i].h = "close" THEN d - 1 ELSE d
  IN IF e = 0 THEN i ELSE Skip(ev, i + 1, e)

RECURSIVE Realise(_, _, _, _, _)
Realise(ev, i, st, L, imps) ==
  IF i > Len(ev) THEN <<>>
  ELSE LET e == ev[i]
           go(w, s) == w \o Realise(ev, i + 1, s, L, imps)
       IN
  CASE e.h = "open" ->
         IF st # <<>> /\ Last(st) = "q" THEN Realise(ev, Skip(ev, i, 0) + 1, st, L, imps)
         ELSE go(L.oq[e.n + 1], Append(st, "q"))
    [] e.h = "close" -> go(L.cq[e.n + 1], Front(st))
    [] e.h = "text" -> go(Escape(L.esc, e.s), st)
    [] e.h = "lit" -> go(L.ls \o e.s \o L.le, st)
    [] e.h = "start" -> go(L.es, Append(st, "e"))
    [] e.h = "end" -> go(L.ee, Front(st))
    [] e.h = "item" -> go(imps[e.n], st)
    [] e.h = "code" -> go(e.s, st)
=============================================================================
