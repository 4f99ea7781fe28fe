-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The layout of a generated file: sections of declarations (a sequence of *)
(* lines each), then the body, and a line terminator. For C# the body may  *)
(* be enclosed in a namespace.                                             *)
(***************************************************************************)
EXTENDS Render, Langs

KwPackage == <<112, 97, 99, 107, 97, 103, 101, 32>>
KwNamespace == <<110, 97, 109, 101, 115, 112, 97, 99, 101>>

(* The declarations implied by the configuration. *)
ConfigSection(lang, cfg) ==
  CASE lang = "java" /\ cfg.pkg # <<>> -> <<KwPackage \o cfg.pkg \o <<59>>>>
    [] lang = "go" /\ cfg.pkg # <<>> -> <<KwPackage \o cfg.pkg>>
    [] OTHER -> <<>>

(**************************** as implemented *******************************)
(* The items of the header: lines of a section are pushed, and a section   *)
(* which is not empty is followed by a blank line.                         *)
SectionItems(sec) ==
  IF sec = <<>> THEN <<>>
  ELSE FlattenSeq([k \in 1..Len(sec) |-> IF sec[k] = <<>> THEN <<PU>> ELSE <<T(sec[k]), PU>>]) \o <<LI>>
HeaderItems(secs) == FlattenSeq([k \in 1..Len(secs) |-> SectionItems(secs[k])])

NamespaceItems(ns, items) ==
  RunFrom(Norm(<<T(KwNamespace), SP, T(ns), SP, T(<<123>>), IND(1)>>), items \o <<IND(-1), T(<<125>>)>>)

FileItems(secs, ns, items) ==
  HeaderItems(secs) \o (IF ns = <<>> THEN items ELSE NamespaceItems(ns, items))

(* NB: a header may not leave anything behind for an empty body. *)
FileOut(secs, ns, items, L, imps, cfg) ==
  LET m == Format(FileItems(secs, ns, items), L, imps, cfg) IN [res |-> m.res, open |-> m.open, out |-> m.out \o <<NL>>]

(***************************** declarative *********************************)
JoinLines(ls) == FoldLeft(LAMBDA a, k : IF k = 1 THEN ls[k] ELSE a \o <<NL>> \o ls[k], <<>>, [k \in 1..Len(ls) |-> k])
Blocks(secs, body) ==
  LET full == [k \in 1..Len(secs) |-> JoinLines(secs[k])] \o <<body>>
      some == SelectSeq(full, LAMBDA b : b # <<>>)
  IN FoldLeft(LAMBDA a, k : IF k = 1 THEN some[k] ELSE a \o <<NL, NL>> \o some[k], <<>>, [k \in 1..Len(some) |-> k])

IndentLines(out) ==
  LET ls == SplitLines(out)
  IN JoinLines([k \in 1..Len(ls) |-> IF ls[k] = <<>> THEN <<>> ELSE <<TAB1>> \o ls[k]])
InNamespace(ns, out) ==
  KwNamespace \o <<32>> \o ns \o <<32, 123, NL>> \o IndentLines(out) \o <<NL, 125>>

FileDecl(secs, ns, out) == Blocks(secs, IF ns = <<>> THEN out ELSE InNamespace(ns, out)) \o <<NL>>

(* Bodies for which the lines inside of a namespace are those of the body, *)
(* moved: indentation is never negative, balanced, and nothing cancels out *)
(* at the edges.                                                           *)
Levels(items) == [k \in 0..Len(items) |-> SumInd(SubSeq(items, 1, k))]
Regular(items, out, imps) ==
  /\ out # <<>>
  /\ SumInd(items) = 0
  /\ \A k \in 0..Len(items) : Levels(items)[k] >= 0
  /\ ~HasNetZero(NamespaceItems(<<97>>, items))
  /\ LET vis == {k \in 1..Len(items) : Txt(items[k], imps) # <<>>}
     IN \A k \in 1..Len(items) :
          ((\A v \in vis : k < v) \/ (\A v \in vis : k > v)) => items[k].k \notin {"li", "ind"}
=============================================================================
