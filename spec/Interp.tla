-------------------------------- MODULE Interp ------------------------------
(***************************************************************************)
(* Strings with evaluated parts: the meaning of a stream is its rendering  *)
(* in an abstract language where text is not escaped and marks delimit     *)
(* strings and evaluations. What the lexer of the target language reads in *)
(* the real rendering has to be that meaning.                              *)
(***************************************************************************)
EXTENDS Render, Strings, Langs, TLC

Abstract(lang) ==
  [oq |-> << <<MOQ>>, <<IF lang = "js" THEN MTQ ELSE MOQ>> >>, cq |-> << <<MCQ>>, <<MCQ>> >>,
   es |-> <<MOE>>, ee |-> <<MCE>>, ls |-> <<MOE>>, le |-> <<MCE>>, esc |-> "id", besc |-> lang,
   nq |-> << <<QUOTE>>, <<QUOTE>> >>]

(* Named deviation DartGlue (known finding): an evaluated identifier takes *)
(* what follows it and continues an identifier.                            *)
GlueStep(a, c) ==
  (* a.id: inside of an evaluation which is an identifier so far; a.held: it ended *)
  IF a.held THEN (IF c >= 0 /\ IdPart(c) THEN [a EXCEPT !.out = Append(@, c)]
                  ELSE [out |-> a.out \o <<MCE, c>>, id |-> c = MOE, n |-> 0, held |-> FALSE])
  ELSE IF c = MOE THEN [out |-> Append(a.out, c), id |-> TRUE, n |-> 0, held |-> FALSE]
  ELSE IF c = MCE /\ a.id /\ a.n > 0 THEN [a EXCEPT !.held = TRUE]
  ELSE IF a.id /\ (IF a.n = 0 THEN IdStart(c) ELSE IdPart(c))
  THEN [a EXCEPT !.out = Append(@, c), !.n = @ + 1]
  ELSE [a EXCEPT !.out = Append(@, c), !.id = FALSE]
Glued(seq) == FoldLeft(GlueStep, [out |-> <<>>, id |-> FALSE, n |-> 0, held |-> FALSE], seq).out

(* The languages as implemented, with their escapes. *)
Real(lang) == IF lang = "dart" THEN [LangRec(lang) EXCEPT !.esc = lang] @@ [lid |-> TRUE]
              ELSE [LangRec(lang) EXCEPT !.esc = lang]

(* Has what was written this meaning? "" or a named deviation, else "bad". *)
Reads(lang, out, want) ==
  LET got == Lex(LexRule(lang), out)
  IN IF got.ok /\ got.out = want THEN ""
     ELSE IF lang = "nix" /\ HasInterp(want) /\ Lex(NixRaw, out) = [ok |-> TRUE, out |-> want] THEN "nix_interpolation"
     ELSE IF lang = "dart" /\ got.ok /\ Glued(want) # want /\ got.out = Glued(want) THEN "dart_glue"
     ELSE "bad"
=============================================================================
