---------------------------- MODULE TraceTemplate ---------------------------
(***************************************************************************)
(* Validates recorded expansions of quoted code: if it was rejected when   *)
(* compiled, what was rendered, and which expressions were evaluated.      *)
(***************************************************************************)
EXTENDS Syntax, Render, Langs, TLC, Json, IOUtils

EscapeImpl(mode, s) == EscapeText(mode, s)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l
vars == <<i, l>>
C == Trace[i]
Init == i \in 1..Len(Trace) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED i

Cfg == [unit |-> <<32, 32, 32>>, nl |-> <<10>>]
L == LangRec("tm")
ImpText(n) == <<73>> \o Digits(n)
Imps == [n \in 1..3 |-> ImpText(n)]

(* Indentation which cancels out still breaks the line (see NetZero of     *)
(* Stream for what the library does).                                      *)
RECURSIVE KeepIndentation(_, _)
KeepIndentation(items, n) ==
  LET rest == Strip(items, {"sp", "pu", "li"})
  IN IF rest # <<>> /\ Last(rest).k = "ind" THEN KeepIndentation(Front(rest), n + Last(rest).n)
     ELSE IF n = 0 THEN Append(rest, PU) ELSE Append(rest, IND(n))
KeepStep(items, op) == IF op.k = "ind" THEN KeepIndentation(items, op.n) ELSE Step(items, op)
KeepNorm(ops) == FoldLeft(KeepStep, <<>>, ops)

(* The quoted code is given as elements, or as tokens to read. *)
Tokens == "toks" \in DOMAIN C
Reading == Quote(C.toks, C.types)
TheBody == IF Tokens THEN Code(Reading) ELSE C.body
R == Body(TheBody, C.env)
Inner == IF C.inplace THEN R.ops ELSE <<Nest(R.ops)>>
(* The stream which is added to is given by an expression. *)
Recv == IF "recv" \in DOMAIN C THEN C.recv ELSE <<>>
Prog == C.pre \o Inner \o C.post
Out(items) == LET m == Format(items, L, Imps, Cfg) IN [res |-> m.res, out |-> Concrete(m.out, Cfg)]

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, l |-> l, what |-> what, want |-> want]))
Known(what) == PrintT("K" \o ToJson([i |-> i, what |-> what]))

Sorted(seq) == SortSeq(seq, LAMBDA a, b : a < b)

Ran ==
  LET a == Out(Norm(Flat(Prog)))
      got == [res |-> C.res, out |-> C.out]
  IN /\ IF got = a
        THEN ~HasNetZero(Spec(Prog)) \/ Out(KeepNorm(Spec(Prog))) = a \/ Known("net_zero_glue")
        ELSE (HasNetZero(Spec(Prog)) /\ Out(KeepNorm(Spec(Prog))) = got) \/ Bad("output", a)
     /\ C.log = Recv \o R.log \/ Bad("evaluated", Recv \o R.log)
     /\ C.imps = Sorted(Imports(Spec(Prog))) \/ Bad("imports", Sorted(Imports(Spec(Prog))))

Conforms == l = 1 =>
  LET verdict == IF Tokens THEN Reading.v ELSE "ok"
      all == IF verdict = "ok" THEN AllRejects(TheBody) ELSE {}
  IN IF C.err = "panic" THEN Bad("macro panics", all)
     ELSE IF verdict = "open" THEN PrintT("O")
     ELSE IF verdict = "bad" THEN C.err # "" \/ Bad("malformed code accepted", [dir |-> "syntax", n |-> 0])
     ELSE IF C.noeval /\ all = {} /\ NeedsEval(TheBody)
     THEN C.err # "" \/ Bad("evaluation accepted", [dir |-> "eval", n |-> 0])
     ELSE IF C.err = "other" THEN Bad("does not compile", all)
     ELSE IF IF all = {} THEN C.err # "" ELSE [dir |-> C.err, n |-> C.off] \notin all
          THEN Bad(IF all = {} THEN "rejected" ELSE IF C.err = "" THEN "accepted" ELSE "rejection", all)
     ELSE IF C.err # "" THEN TRUE
     ELSE IF C.res = "notrun" THEN TRUE
     ELSE Ran
=============================================================================
