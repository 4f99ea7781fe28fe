------------------------------ MODULE MCSyntax ------------------------------
(***************************************************************************)
(* All short sequences of trees of tokens: reading them from left to right *)
(* (Syntax!Quote, as the macros do) agrees with what runs of dollar signs  *)
(* say about which tokens belong to which form, and keeps all others.      *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json

CONSTANTS MaxLen, Dump

VARIABLE ts
Init == ts = <<>>

Leaf(k, v, w, s) == [k |-> k, v |-> v, w |-> w, s |-> s, c |-> <<>>]
Leaves == << Leaf("d", "", 0, <<36>>), Leaf("id", "n", 0, <<110>>), Leaf("id", "str", 0, <<115, 116, 114>>),
             Leaf("kw", "const", 0, <<99>>), Leaf("ch", "", 32, <<39, 32, 39>>), Leaf("ch", "", 97, <<39, 97, 39>>),
             Leaf("ls", "", <<113>>, <<34, 113, 34>>), Leaf("p", ";", 0, <<59>>) >>
Group(v, c) == [k |-> "g", v |-> v, w |-> 0, c |-> c,
                s |-> CASE v = "(" -> <<40, 41>> [] v = "[" -> <<91, 93>> [] v = "{" -> <<123, 125>>]
Rng(seq) == {seq[i] : i \in 1..Len(seq)}
Two == {Leaves[i] : i \in {1, 2, 3, 5}}
Trees == Rng(Leaves) \cup {Group(v, <<>>) : v \in {"(", "[", "{"}}
         \cup {Group(v, <<x>>) : v \in {"(", "[", "{"}, x \in Rng(Leaves)}
         \cup {Group(v, <<x, y>>) : v \in {"(", "["}, x \in Two, y \in Two}

\* the first tree is a dollar sign or something that precedes one
Next == /\ Len(ts) < MaxLen
        /\ \E x \in (IF ts = <<>> THEN {Leaves[1], Leaves[2]} ELSE Trees) : ts' = Append(ts, x)

(* Positions: nothing depends on them here. *)
P0 == At(1, 5)
RECURSIVE Placed(_)
Placed(seq) == [i \in 1..Len(seq) |-> [seq[i] EXCEPT !.c = Placed(@)] @@ [a |-> P0, b |-> P0]]
Ty == << <<"n", "i">>, <<"str", "s">> >>
Q == Placed(ts)
R == Quote(Q, Ty)
S == InString(Q, Ty)

HowMany(seq, P(_)) == Cardinality({i \in 1..Len(seq) : P(i)})

\* indices of what is part of a form or an escape
Taken(i) ==
  \/ Q[i].k = "d" /\ ~(Before(Q, i) % 2 = 0 /\ ~Is(Q, i + 1, "d") /\ ~Function(Q, i) /\ ~Interpolates(Q, i))
  \/ i > 1 /\ (Function(Q, i - 1) \/ Interpolates(Q, i - 1))
  \/ i > 2 /\ Function(Q, i - 2) /\ IsG(Q, i, "(") /\ NameOf(Q, i - 2).k = "id"

Escapes == HowMany(Q, LAMBDA i : Q[i].k = "d" /\ Before(Q, i) % 2 = 1)

(* What is accepted has as many of each as there are forms; a string of    *)
(* trees with a bad function is not accepted.                              *)
Forms ==
  /\ (\E i \in 1..Len(Q) : Function(Q, i) /\ ~GoodFunction(Q, i)) => R.v = "bad"
  /\ R.v = "ok" =>
       /\ HowMany(R.els, LAMBDA j : R.els[j].k \in {"ctl", "str"}) = HowMany(Q, LAMBDA i : Function(Q, i))
       /\ \A i \in 1..Len(Q) : Function(Q, i) => GoodFunction(Q, i)

RECURSIVE SourceOf(_), TextOf(_)
\* text which is not part of a form, for sequences without nested dollars
Plain(seq) == \A i \in 1..Len(seq) : seq[i].k # "d" /\ (seq[i].k = "g" => \A j \in 1..Len(seq[i].c) : seq[i].c[j].k # "d")
SourceOf(seq) == FlattenSeq([i \in 1..Len(seq) |->
  IF seq[i].k = "g" THEN <<seq[i].s[1]>> \o SourceOf(seq[i].c) \o <<seq[i].s[2]>> ELSE seq[i].s])
TextOf(els) == FlattenSeq([j \in 1..Len(els) |->
  CASE els[j].k \in {"tok", "tx"} -> els[j].s [] els[j].k = "lit" -> <<34>> \o els[j].s \o <<34>> [] OTHER -> <<>>])
\* in quotes: dollars of escapes, and what is not taken
Kept ==
  LET keep == [i \in 1..Len(Q) |->
        IF Q[i].k = "d" /\ Before(Q, i) % 2 = 1 THEN <<36>>
        ELSE IF Taken(i) THEN (IF i > 1 /\ Interpolates(Q, i - 1) /\ Q[i].k = "g" /\ Len(Q[i].c) = 1 /\ Q[i].c[1].k = "ls"
                               THEN Q[i].c[1].w ELSE <<>>)
        ELSE IF Q[i].k = "g" THEN SourceOf(<<Q[i]>>) ELSE Q[i].s]
      flat == \A i \in 1..Len(Q) : Q[i].k = "g" /\ ~Taken(i) => Plain(Q[i].c)
  IN R.v = "ok" /\ flat => TextOf(R.els) = FlattenSeq(keep)

(* In strings every dollar sign has to be part of something. *)
Strings ==
  /\ (\E i \in 1..Len(Q) : Leads(Q, i) /\ ~Interpolates(Q, i) /\ ~Function(Q, i)) => S.v = "bad"
  /\ (\E i \in 1..Len(Q) : Function(Q, i) /\ ~(NameOf(Q, i).k = "kw" /\ IsG(Q, i + 2, "("))) => S.v = "bad"
  /\ (\A i \in 1..Len(Q) : Q[i].k # "d") /\ Plain(Q) => S.v = "ok" /\ TextOf(S.els) = SourceOf(Q)

Verdicts == R.v \in {"ok", "bad", "open"} /\ S.v \in {"ok", "bad", "open"}

Export == (Dump /\ Len(ts) = MaxLen /\ \E i \in 1..MaxLen : ts[i].k = "d") => PrintT("C" \o ToJson(ts))
=============================================================================
