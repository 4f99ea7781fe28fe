------------------------------ MODULE TraceFiles ----------------------------
(***************************************************************************)
(* Validates files rendered by the real library. A case has the lines of   *)
(* the declarations and the written forms of imports (both observed in a   *)
(* file with a trivial body), a program, and files rendered from it.       *)
(***************************************************************************)
EXTENDS Files, TLC, Json, IOUtils

CONSTANT Prop
EscapeImpl(mode, s) == EscapeText(mode, s)

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
Init == i \in 1..Len(Trace) /\ l = 0
Next == l < Len(Trace[i].renders) /\ l' = l + 1 /\ UNCHANGED i
C == Trace[i]
Rd == C.renders[l]
Cfg == [unit |-> Rd.unit, nl |-> Rd.nl]

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, l |-> l, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)

Secs == <<ConfigSection(C.lang, C.cfg)>> \o C.secs

Got == IF Rd.w \in {"vec", "to_file_vec"} THEN Rd.lines ELSE Rd.out
Want(out) == IF Rd.w \in {"vec", "to_file_vec"} THEN LinesOf(Front(out), Cfg) ELSE Concrete(out, Cfg)

Conforms ==
  l > 0 =>
    LET items == Norm(Flat(C.prog))
        L == LangRec(C.lang)
        f == FileOut(Secs, C.cfg.ns, items, L, C.imps, Cfg)
    IN /\ Expect(C.bad = <<>>, "unreadable declarations", C.bad)
       /\ Expect(Rd.res = f.res, "result", f.res)
       /\ f.res = "ok" => Expect(Got = Want(f.out), "file", Want(f.out))
=============================================================================
