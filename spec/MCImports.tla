------------------------------ MODULE MCImports -----------------------------
(***************************************************************************)
(* All histories of adding imports to a file (by a reference or by a       *)
(* registration), for the languages, configurations and imports of a pool. *)
(* The algorithms of the implementation (which names are declared and how  *)
(* references are written) are checked to write references which denote    *)
(* what they were created for; the histories are exported and replayed.    *)
(***************************************************************************)
EXTENDS Imports, TLC, Json, IOUtils

CONSTANTS MaxLen, Dump

Pools == ndJsonDeserialize(IOEnv.POOLS)   \* [lang, imps, cfgs]

VARIABLES p, c, hist                      \* hist: <<import, registered>>
vars == <<p, c, hist>>

P == Pools[p]
Cfg == P.cfgs[c]
Init == /\ p \in 1..Len(Pools)
        /\ c \in 1..Len(Pools[p].cfgs)
        /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E n \in 1..Len(P.imps) : \E r \in {0, 1} : hist' = Append(hist, <<n, r>>)
        /\ UNCHANGED <<p, c>>

Imp(n) == Import(P.lang, P.imps[n])
Universe == {Imp(hist[k][1]) : k \in 1..Len(hist)}

(***************************** implementation ******************************)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
(* Pairs of module and name, in the order of a sorted set. *)
Sorted(S) == SetToSortSeq({<<x.m, x.n>> : x \in S},
                          LAMBDA a, b : Less(a[1], b[1]) \/ (a[1] = b[1] /\ Less(a[2], b[2])))

NoNames == [n \in {} |-> <<>>]
Bind(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* The first type of a name is imported; types of the package of the file  *)
(* are not declared but take their name.                                   *)
JavaTable(S, cfg) ==
  FoldLeft(LAMBDA t, x :
             IF x[2] \in DOMAIN t.names \/ x[1] = JavaLang THEN t
             ELSE [names |-> Bind(t.names, x[2], x[1]),
                   decls |-> IF x[1] = cfg.pkg THEN t.decls ELSE t.decls \cup {Decl("import", x[1], x[2], <<>>)}],
           [names |-> NoNames, decls |-> {}], Sorted(S))
JavaWrite(x, t, cfg) ==
  LET bound == x.n \in DOMAIN t.names
      implicit == x.m \in {JavaLang, cfg.pkg}
  IN IF (IF bound THEN t.names[x.n] # x.m ELSE ~implicit) THEN x.m \o DOT \o x.n ELSE x.n

(* Names of the namespaces enclosing the file shadow the names which are   *)
(* imported; names in more than one imported namespace are ambiguous.      *)
CsharpTable(S, cfg) ==
  LET mods == Sorted(S)
      enc == Enclosing(cfg.ns)
      shadow == FoldLeft(LAMBDA f, e :
                   FoldLeft(LAMBDA g, x : IF x[1] = e /\ x[2] \notin DOMAIN f THEN Bind(g, x[2], e) ELSE g, f, mods),
                   NoNames, enc)
      t == FoldLeft(LAMBDA u, x :
             IF x[1] = cfg.ns \/ (x[2] \in DOMAIN u.names /\ u.names[x[2]] # x[1]) THEN u
             ELSE [names |-> Bind(u.names, x[2], x[1]), decls |-> u.decls \cup {Decl("using", x[1], <<>>, <<>>)}],
             [names |-> shadow, decls |-> {}], mods)
      amb == {x[2] : x \in {y \in Range2(mods) : /\ Decl("using", y[1], <<>>, <<>>) \in t.decls
                                                 /\ t.names[y[2]] # y[1]
                                                 /\ y[2] \notin DOMAIN shadow}}
  IN [names |-> [n \in DOMAIN t.names |-> IF n \in amb THEN <<>> ELSE t.names[n]], decls |-> t.decls]
CsharpWrite(x, t, cfg) ==
  IF x.mode = "qual" \/ (x.m # cfg.ns /\ x.n \in DOMAIN t.names /\ t.names[x.n] # x.m)
  THEN x.m \o DOT \o x.n ELSE x.n

Table(S) ==
  CASE P.lang = "java" -> JavaTable(S, Cfg)
    [] P.lang = "csharp" -> CsharpTable(S, Cfg)
    [] OTHER -> [names |-> NoNames, decls |-> UNION {Needs(P.lang, x, Cfg) : x \in S}]
Write(x, t) ==
  CASE P.lang = "java" -> JavaWrite(x, t, Cfg)
    [] P.lang = "csharp" -> CsharpWrite(x, t, Cfg)
    [] OTHER -> Form(P.lang, x, Cfg)

(******************************* properties ********************************)
T == Table(Universe)
DeclaredOK == Declared(P.lang, T.decls, Cfg, Universe)
References ==
  LET t == T IN
  \A x \in Universe :
    LET w == Write(x, t)
    IN /\ Written(P.lang, x, w, Cfg)
       /\ \/ Resolves(P.lang, x, w, t.decls, Cfg, Universe)
          \/ P.lang = "csharp" /\ CsharpPrefix(x, w, Cfg, Universe)
(* A relative path leads to the module. *)
Paths ==
  P.lang = "js" => \A x \in Universe :
    (x.f = "import_path" /\ Cfg.path # <<>>) => Follow(Cfg.path, JsModule(x, Cfg)) = x.m
(* No declaration is needed by nothing. *)
NoneWithout == hist = <<>> => T.decls = {}

Export == Dump => PrintT("C" \o ToJson([p |-> p, c |-> c, h |-> hist]))
=============================================================================
