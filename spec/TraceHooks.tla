----------------------------- MODULE TraceHooks ----------------------------
(***************************************************************************)
(* Validates the calls of the functions of a language, and what was        *)
(* written, which were recorded while streams were formatted, against      *)
(* Hooks. Every call is given the configuration and format state which     *)
(* formatting was started with. If a call fails, formatting fails and no   *)
(* other call follows.                                                     *)
(***************************************************************************)
EXTENDS Hooks, Langs, TLC, Json, IOUtils

EscapeImpl(mode, s) == EscapeText(mode, s)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l
vars == <<i, l>>

C == Trace[i]
Init == i \in 1..Len(Trace) /\ l = 0
Next == l < Len(C.renders) /\ l' = l + 1 /\ UNCHANGED i

Rd == C.renders[l]
Cfg == [unit |-> Rd.unit, nl |-> Rd.nl]
LR == LangRec(C.lang)
Items == Norm(Flat(C.prog))

(* td records the functions which it defines. *)
Defined(e) == C.lang # "td" \/ e.h \in {"start", "end", "item"}
Tag(evs, c, f) ==
  [n \in 1..Len(evs) |->
     IF evs[n].h = "text" THEN evs[n] @@ [c |-> "", f |-> ""] ELSE evs[n] @@ [c |-> c, f |-> f]]

(* What formatting does: its calls, with what they are given, its result   *)
(* and the output. tr defines what a file consists of.                     *)
Fmt(c0, items, f) ==
  LET m == FormatFrom(c0, items, LR, C.imps, Cfg)
  IN [res |-> m.res, open |-> m.open, out |-> m.end.out, end |-> m.end,
      ev |-> Tag(SelectSeq(Calls(HooksFrom(c0, items, LR, C.imps, Cfg)), Defined), Rd.cfg, f)]

FileText == <<102, 105, 108, 101>>
EndText == <<101, 110, 100>>
Model ==
  IF ~Rd.file THEN Fmt(Ctx0, Items, Rd.fmt)
  ELSE IF C.lang = "td"
  THEN LET m == Fmt(Ctx0, Items, "df") IN [m EXCEPT !.out = Append(@, NL)]
  ELSE LET h == Fmt(Ctx0, <<T(FileText), SP, T(Rd.cfgs), LI>>, "fh")
           m == Fmt(h.end, Items, "ff")
           z == Fmt(m.end, <<LI, T(EndText)>>, "df")
       IN [res |-> m.res, open |-> m.open, out |-> Append(z.out, NL), end |-> z.end,
           ev |-> <<[h |-> "file", n |-> 0, s |-> <<>>, c |-> Rd.cfg, f |-> ""]>> \o m.ev]

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, l |-> l, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)

Log == Merged(Rd.log)

OutOK(m) ==
  IF Rd.w \in {"vec", "to_vec", "to_file_vec"}
  THEN Expect(Rd.lines = LinesOf(IF Rd.file THEN Front(m.out) ELSE m.out, Cfg), "lines",
              LinesOf(m.out, Cfg))
  ELSE Expect(Rd.out = Concrete(m.out, Cfg), "output", Concrete(m.out, Cfg))

Conforms ==
  l = 0 \/
  LET m == Model IN
  IF Rd.failed
  THEN /\ Expect(Rd.res = "err", "error of a function", "err")
       /\ Expect(Len(Rd.log) = Rd.fail, "calls after an error", Rd.fail)
       (* what happens at the end of a stream which leaves strings open is unspecified *)
       /\ ~m.open => Expect(IsPart(Log, m.ev), "calls", m.ev)
       /\ (Rd.w \in {"fmt", "io"} /\ m.res = "ok" /\ ~m.open)
            => Expect(IsPrefix(Rd.out, Concrete(m.out, Cfg)), "output", Concrete(m.out, Cfg))
  ELSE IF m.open THEN Expect(Rd.res # "panic", "result", "no panic")
  ELSE IF m.res = "err"
  THEN /\ Expect(Rd.res = "err", "result", "err")
       /\ Expect(IsPart(Log, m.ev), "calls", m.ev)
  ELSE /\ Expect(Rd.res = "ok", "result", "ok")
       /\ Expect(Log = m.ev, "calls", m.ev)
       /\ OutOK(m)
=============================================================================
