----------------------------- MODULE TraceSink -----------------------------
(***************************************************************************)
(* Validates recorded renderings: what each writer received, and for sinks *)
(* with a schedule every single call and its answer.                       *)
(***************************************************************************)
EXTENDS Render, Langs, Sink, TLC, Json, IOUtils

EscapeImpl(mode, s) == EscapeText(mode, s)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, r            \* case, renderings which have been consumed
vars == <<i, r>>

C == Trace[i]
Rd == C.renders[r]
Cfg == [unit |-> Rd.unit, nl |-> Rd.nl]

Init == /\ i \in 1..Len(Trace)
        /\ r = 0
Next == /\ r < Len(C.renders)
        /\ r' = r + 1
        /\ UNCHANGED i

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, l |-> r, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)

(* The sink after every call, with all that was offered allowed. *)
Calls(total) ==
  FoldLeft(LAMBDA a, c :
             [ok |-> a.ok /\ (c.a # "flush" => MayOffer(a.s, c.a, c.len, c.n, total)),
              s |-> Answer(a.s, c.a, c.len, c.n)],
           [ok |-> TRUE, s |-> Sink0], Rd.calls)

Ends(m) ==
  LET text == Concrete(m.out, Cfg) \o (IF Rd.file THEN Cfg.nl ELSE <<>>)
  IN CASE Rd.w \in {"sink", "fmtsink"} ->
            LET bytes == Utf8(text)
                e == Calls(Len(bytes))
            IN /\ Expect(e.ok, "offer", Len(bytes))
               /\ Expect(Rd.res = Result(e.s), "result", Result(e.s))
               /\ Expect(Complete(e.s, Len(bytes)), "complete", bytes)
               /\ Expect(Rd.bytes = SubSeq(bytes, 1, e.s.pos), "received", SubSeq(bytes, 1, e.s.pos))
       [] Rd.w \in {"vec", "to_vec", "to_file_vec"} ->
            /\ Expect(Rd.res = "ok", "result", "ok")
            /\ Expect(Rd.lines = LinesOf(m.out, Cfg), "lines", LinesOf(m.out, Cfg))
       [] OTHER ->
            /\ Expect(Rd.res = "ok", "result", "ok")
            /\ Expect(Rd.out = text, "output", text)

Conforms == r > 0 =>
  LET m == Format(Norm(Flat(C.prog)), LangRec(C.lang), C.imps, Cfg)
  IN IF m.res = "err" \/ m.open THEN Expect(Rd.res # "panic", "result", m.res) ELSE Ends(m)
=============================================================================
