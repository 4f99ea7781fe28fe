------------------------------ MODULE TraceNix ------------------------------
(***************************************************************************)
(* Validates the declarations read from real Nix files.                    *)
(***************************************************************************)
EXTENDS Nix, TLC, Json, IOUtils

CONSTANT Prop
EscapeImpl(mode, s) == EscapeText(mode, s)

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l
Init == i \in 1..Len(Trace) /\ l = 0
Next == l < 1 /\ l' = 1 /\ UNCHANGED i
C == Trace[i]
Cfg == [unit |-> C.unit, nl |-> <<10>>]

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)
Is(seq, set, what) == /\ Expect(RangeOf(seq) = set, what, SetToSeq(set))
                      /\ Expect(Len(seq) = Cardinality(RangeOf(seq)), "declared more than once", seq)

Conforms ==
  l = 1 =>
    LET S == Uses(C.prog, C.imps) IN
    /\ Expect(Covered(S, C.imps), "specification", <<>>)
    /\ Expect(C.bad = <<>>, "unreadable declarations", C.bad)
    /\ Expect(C.hasargs = ~C.scoped, "function arguments", <<>>)
    /\ C.hasargs => Is(C.args, Arguments(S, C.imps), "function arguments")
    /\ Is(C.withs, Withs(S, C.imps), "with")
    /\ Is(C.entries, Entries(S, C.imps, Cfg), "let")
    /\ LET m == Format(Norm(Flat(C.prog)), LangRec("nix"), Names(C.imps), Cfg)
       IN Expect(C.body = Concrete(m.out, Cfg), "body", Concrete(m.out, Cfg))
=============================================================================
