---------------------------- MODULE TraceStrings ----------------------------
(***************************************************************************)
(* Validates recorded renderings of strings: what the lexer of the target  *)
(* language reads in the output is what the stream means, which is its     *)
(* rendering in an abstract language where text is not escaped and marks   *)
(* delimit strings and evaluations.                                        *)
(***************************************************************************)
EXTENDS Interp, TLC, Json, IOUtils

EscapeImpl(mode, s) == IF mode \in Languages THEN EscapeString(mode, s) ELSE s

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l
vars == <<i, l>>
C == Trace[i]
Init == i \in 1..Len(Trace) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED i

Cfg == [unit |-> <<>>, nl |-> <<10>>]
Model == Format(Norm(Flat(C.prog)), Abstract(C.lang), C.imps, Cfg)
Wanted == Encode(C.lang, Concrete(Model.out, Cfg))

Bad(what, want, got) == PrintT("B" \o ToJson([i |-> i, l |-> l, what |-> what, want |-> want, got |-> got]))
Known(what) == PrintT("K" \o ToJson([i |-> i, what |-> what]))

Conforms == l = 1 =>
  LET got == Lex(LexRule(C.lang), C.out)
      want == Wanted
      r == Reads(C.lang, C.out, want)
  IN IF Model.res = "err" \/ Model.open THEN C.res # "panic" \/ Bad("panic", <<>>, <<>>)
     ELSE IF C.res # "ok" THEN Bad("result", want, <<>>)
     ELSE IF r = "" THEN TRUE
     ELSE IF r # "bad" THEN Known(r)
     ELSE Bad(IF got.ok THEN "meaning" ELSE "ill-formed literal", want, got.out)
=============================================================================
