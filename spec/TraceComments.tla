---------------------------- MODULE TraceComments ---------------------------
(***************************************************************************)
(* Validates files with comments which were rendered by the real library.  *)
(* A case is a program and the lines which were rendered.                  *)
(***************************************************************************)
EXTENDS Comments, TLC, Json, IOUtils

CONSTANT Prop
EscapeImpl(mode, s) == s

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
Init == i \in 1..Len(Trace) /\ l = 0
Next == l < 1 /\ l' = 1 /\ UNCHANGED i
C == Trace[i]

RECURSIVE Inline(_)
Inline(prog) == FlattenSeq([k \in 1..Len(prog) |->
  IF prog[k].k = "nest" THEN FlattenSeq([j \in 1..Len(prog[k].c) |-> Inline(prog[k].c[j])]) ELSE <<prog[k]>>])

Dummy == [oq |-> <<<<34>>, <<34>>>>, cq |-> <<<<34>>, <<34>>>>,
          es |-> <<>>, ee |-> <<>>, ls |-> <<>>, le |-> <<>>, esc |-> "id", nq |-> <<<<34>>, <<34>>>>]
Cfg == [unit |-> C.unit, nl |-> <<10>>]
Bad(what, want) == PrintT("B" \o ToJson([i |-> i, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)
Known(what) == PrintT("K" \o ToJson([i |-> i, what |-> what]))

Conforms ==
  l = 1 =>
    LET p == Inline(C.prog)
        m == Format(Norm(Flat(C.prog)), Dummy, <<>>, Cfg)
    IN /\ Expect(C.lines = LinesOf(m.out, Cfg), "lines", LinesOf(m.out, Cfg))
       /\ Separated(p) =>
            \/ Read(C.lines) = Given(p, Len(C.unit))
            \/ JavaClose(p) /\ Known("java_comment_close")
            \/ Bad("comments", Given(p, Len(C.unit)))
=============================================================================
