---------------------------- MODULE TraceImports ----------------------------
(***************************************************************************)
(* Validates recorded files. A case is a set of imports and several        *)
(* programs (variants) which add them in different orders and ways. The    *)
(* state is what has been checked; uses of a variant are consumed one by   *)
(* one.                                                                    *)
(*   imps      descriptions of the imports                                 *)
(*   decls     declarations read in the first file, bad: unreadable lines  *)
(*   variants  [pre, uses, plain]: text of the preamble, <<import, written>> *)
(*             in the file and in the body rendered alone                  *)
(***************************************************************************)
EXTENDS Imports, TLC, Json, IOUtils

CONSTANT Prop

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, v
vars == <<i, v>>

C == Trace[i]
Init == i \in 1..Len(Trace) /\ v = 0
Next == v < Len(C.variants) /\ v' = v + 1 /\ UNCHANGED i

Imps == [k \in 1..Len(C.imps) |-> Import(C.lang, C.imps[k])]
Universe == Range2(Imps)
Decls == Range2(C.decls)
V == C.variants[v]

Bad(what, want) == PrintT("B" \o ToJson([i |-> i, v |-> v, what |-> what, want |-> want]))
Expect(cond, what, want) == cond \/ Bad(what, want)
Known(what) == PrintT("K" \o ToJson([i |-> i, what |-> what]))

DeclsOK ==
  /\ Expect(C.bad = <<>>, "ill-formed declaration", C.bad)
  /\ Expect(Cardinality(Decls) = Len(C.decls), "declared more than once", <<>>)
  /\ Expect(Declared(C.lang, Decls, C.cfg, Universe), "declarations", C.decls)

UseOK(x, w) ==
  /\ Expect(Written(C.lang, x, w, C.cfg), "written", w)
  /\ \/ Resolves(C.lang, x, w, Decls, C.cfg, Universe)
     \/ C.lang = "csharp" /\ CsharpPrefix(x, w, C.cfg, Universe) /\ Known("csharp_prefix")
     \/ Bad("denotes something else", w)

(* Rendered without declarations. *)
PlainOK == \A k \in 1..Len(V.plain) :
  LET x == Imps[V.plain[k][1]]
      w == Plain(C.lang, x, C.cfg)
  IN Expect(V.plain[k][2] = w, "written without declarations", w)

UsesOK == PlainOK /\ \A k \in 1..Len(V.uses) : UseOK(Imps[V.uses[k][1]], V.uses[k][2])

Conforms ==
  CASE Prop = "C14" -> v > 1 =>
         /\ Expect(V.pre = C.variants[1].pre, "preamble depends on order", C.variants[1].pre)
         /\ Expect(\A a \in Range2(V.uses) : \A b \in Range2(C.variants[1].uses) : a[1] = b[1] => a[2] = b[2],
                   "references depend on order", C.variants[1].uses)
    [] v = 0 -> DeclsOK
    [] OTHER -> UsesOK
=============================================================================
