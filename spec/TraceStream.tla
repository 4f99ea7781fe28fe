----------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* Validates executions recorded from the real library. Every case of the  *)
(* trace is a program, the items and imports observed after (some of) its  *)
(* operations, and what was rendered from the result. The operations are   *)
(* those of Stream; observations are compared to the state of the machine. *)
(* Prop selects what is compared.                                          *)
(***************************************************************************)
EXTENDS Render, Langs, TLC, Json, IOUtils

CONSTANT Prop

EscapeImpl(mode, s) == EscapeText(mode, s)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,       \* the case
          l,       \* events of the case which have been consumed
          ops,     \* primitive operations performed so far
          items    \* state of the machine

vars == <<i, l, ops, items>>

C == Trace[i]
NSteps == Len(C.steps)
NEvents == NSteps + Len(C.renders)

Init == /\ i \in 1..Len(Trace)
        /\ l = 0
        /\ ops = <<>>
        /\ items = <<>>

(* Operations are performed by the machine of Stream. *)
Build == /\ l < NSteps
         /\ LET from == IF l = 0 THEN 0 ELSE C.steps[l].upto
                new == Flat(SubSeq(C.prog, from + 1, C.steps[l+1].upto))
            IN /\ ops' = ops \o new
               /\ items' = RunFrom(items, new)
         /\ l' = l + 1
         /\ UNCHANGED i

RenderIt == /\ l >= NSteps /\ l < NEvents
            /\ l' = l + 1
            /\ UNCHANGED <<i, ops, items>>

Next == Build \/ RenderIt

(****************************** comparisons ********************************)
Obs == C.steps[l]
Rd == C.renders[l - NSteps]
Cfg == [unit |-> Rd.unit, nl |-> Rd.nl]
Model == Format(items, LangRec(C.lang), C.imps, Cfg)

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, l |-> l, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)

(* All ways to iterate yield the items and announce how many are left, and *)
(* a stream is equal to its items and nothing else. Streams are equal, and *)
(* then hash alike, if they yield the same.                                *)
ViewsOK(v, its) ==
  /\ \A k \in 1..Len(v.items) : Expect(v.items[k] = its, "iteration", its)
  /\ \A k \in 1..Len(v.hints) :
       Expect(\A j \in 1..Len(v.hints[k]) :
                LET h == v.hints[k][j]  left == Len(its) - (j - 1)
                IN h[1] <= left /\ (h[2] = -1 \/ left <= h[2]), "size", Len(its))
  /\ Expect(\A k \in 1..Len(v.eq) : v.eq[k], "equality", TRUE)
  /\ Expect(\A k \in 1..Len(v.ne) : \A j \in 1..Len(v.ne[k]) : ~v.ne[k][j], "inequality", FALSE)
  /\ \A k \in 1..Len(v.same) :
       LET s == v.same[k] IN
       /\ Expect(\A j \in 1..Len(s.eq) : s.eq[j] = (s.items = its), "equal streams", s.items)
       /\ Expect(s.items = its => s.hash, "hash", s.items)

BuiltOK ==
  CASE Prop = "C01" ->
         /\ Expect(Guarantee(ops, Obs.items), "items", items)
         /\ Expect(Obs.empty = (Obs.items = <<>>), "is_empty", items = <<>>)
         /\ "views" \in DOMAIN Obs => ViewsOK(Obs.views, Obs.items)
    [] Prop = "C05" ->
         Expect(SameBag(Obs.imps, Imports(Spec(SubSeq(C.prog, 1, Obs.upto)))), "imports",
                Imports(Spec(SubSeq(C.prog, 1, Obs.upto))))
    [] Prop = "C04" ->
         LET want == Spec(SubSeq(C.prog, 1, Obs.upto)) IN
         /\ Expect(Solids(Obs.items) = Solids(want), "items", Norm(want))
         /\ Expect(SameBag(Obs.imps, Imports(want)), "imports", Imports(want))
         (* Named deviation NetZero, see Stream. *)
         /\ Expect(Meanings(Obs.items) = (IF NestedNetZero(C.prog) THEN Meanings(ops) ELSE Meanings(want)),
                   "whitespace", Norm(want))
    [] OTHER -> TRUE

OutOK(m) ==
  IF Rd.w \in {"vec", "to_vec"} \/ (Rd.w = "chain" /\ Rd.on = "vec")
  THEN Expect(Rd.lines = LinesOf(m.out, Cfg), "lines", LinesOf(m.out, Cfg))
  ELSE Expect(Rd.out = Concrete(m.out, Cfg), "output", Concrete(m.out, Cfg))

RenderedOK ==
  LET m == IF Rd.w = "chain" THEN Chain(Rd.parts, LangRec(C.lang), C.imps, Cfg) ELSE Model IN
  CASE Prop = "C11" ->
         IF m.open THEN Expect(Rd.res # "panic", "result", "no panic")
         ELSE Expect(Rd.res = m.res, "result", m.res)
    [] OTHER ->
         IF m.res = "err" THEN Expect(Rd.res # "panic", "result", m.res)
         ELSE IF m.open THEN Expect(Rd.res # "panic", "result", m.res)
         ELSE Expect(Rd.res = "ok", "result", m.res) /\ OutOK(m)

Conforms == CASE l = 0 -> TRUE
              [] l <= NSteps -> BuiltOK
              [] OTHER -> RenderedOK
=============================================================================
