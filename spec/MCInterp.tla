------------------------------- MODULE MCInterp -----------------------------
(***************************************************************************)
(* All small programs of properly nested strings and evaluations: what is  *)
(* rendered has the meaning of the program in JavaScript and Dart, and in  *)
(* languages without evaluation if nothing is evaluated. Exports them.     *)
(***************************************************************************)
EXTENDS Interp, TLC, Json

CONSTANTS MaxLen, Dump, Texts, Langs
EscapeImpl(mode, s) == IF mode \in Languages THEN EscapeString(mode, s) ELSE s

VARIABLES prog, stack      \* stack: "c" code, "s" evaluated, "p" plain, "n" nested in text, "e" evaluation
vars == <<prog, stack>>

Init == prog = <<>> /\ stack = <<"c">>
Add(op) == /\ Len(prog) + Len(stack) <= MaxLen
           /\ prog' = Append(prog, op)
           /\ UNCHANGED stack
Open(op, t) == /\ Len(prog) + Len(stack) + 1 <= MaxLen
               /\ prog' = Append(prog, op)
               /\ stack' = Append(stack, t)
Close(op) == prog' = Append(prog, op) /\ stack' = Front(stack)
InStr == Last(stack) \in {"s", "p", "n"}
Next ==
  \/ \E t \in Texts : (InStr \/ t \in {97, 43}) /\ Add(T(<<t>>))
  \/ InStr /\ Add(SP)
  \/ Last(stack) = "e" /\ Open(OQ(1), "s")
  \/ Last(stack) = "c" /\ prog = <<>> /\ (Open(OQ(1), "s") \/ Open(OQ(0), "p"))
  \/ InStr /\ Open(OQ(0), "n")
  \/ Last(stack) = "s" /\ Open(OE, "e")
  \/ InStr /\ Close(CQ)
  \/ Last(stack) = "e" /\ Last(prog).k # "oe" /\ Close(CE)

Done == stack = <<"c">> /\ prog # <<>> /\ Last(prog).k = "cq"
Evaluates == \E k \in 1..Len(prog) : prog[k].k = "oe"
Cfg == [unit |-> <<>>, nl |-> <<10>>]
Means(lang) ==
  LET want == Encode(lang, Format(prog, Abstract(lang), <<>>, Cfg).out)
      m == Format(prog, Real(lang), <<>>, Cfg)
  IN m.res = "ok" /\ Reads(lang, m.out, want) # "bad"
Meant == Done => \A lang \in Langs : (lang \in {"js", "dart"} \/ ~Evaluates) => Means(lang)

Export == (Dump /\ Done) => PrintT("C" \o ToJson(prog))
=============================================================================
