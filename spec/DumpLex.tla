------------------------------ MODULE DumpLex -------------------------------
(* Prints what Strings reads in given literals, see tools/validate_lexer.py *)
EXTENDS Strings, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED i
Export == PrintT("L" \o ToJson([i |-> i, r |-> Lex(LexRule(Trace[i].lang), Trace[i].lit)]))
=============================================================================
