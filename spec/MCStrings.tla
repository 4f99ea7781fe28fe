----------------------------- MODULE MCStrings ------------------------------
(***************************************************************************)
(* Texts are built character by character, in up to two pieces, and quoted *)
(* for a language. The literal always denotes the text.                    *)
(***************************************************************************)
EXTENDS Strings, TLC, Json

CONSTANTS MaxText, Alphabet, Lang, Dump, Split

VARIABLES pieces
Init == pieces = << <<>> >>
Text == FlattenSeq(pieces)
Add(c) == /\ Len(Text) < MaxText
          /\ pieces' = [pieces EXCEPT ![Len(pieces)] = Append(@, c)]
Cut == /\ Split /\ Len(pieces) = 1 /\ pieces[1] # <<>>
       /\ Len(Text) < MaxText
       /\ pieces' = Append(pieces, <<>>)
Next == (\E c \in Alphabet : Add(c)) \/ Cut

Literal(l) == <<QUOTE>> \o FlattenSeq([i \in 1..Len(pieces) |-> EscapeString(l, pieces[i])]) \o <<QUOTE>>

Langs1 == IF Lang = "all" THEN Languages ELSE {Lang}
Faithful ==
  \A l \in Langs1 :
    IF l = "nix" THEN (\E i \in 1..Len(Text) : Text[i] = 0)
                      \/ Denotes(l, Literal(l), Text) \/ DenotesNixRaw(Literal(l), Text)
    ELSE Denotes(l, Literal(l), Text)
Export == Dump => PrintT("C" \o ToJson(pieces))
=============================================================================
