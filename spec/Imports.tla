------------------------------- MODULE Imports ------------------------------
(***************************************************************************)
(* Imports of the languages: how a reference is written, what declarations *)
(* it needs, and what a written reference denotes given the declarations   *)
(* of a file. All names are sequences of code points; <<>> stands for      *)
(* "none".                                                                 *)
(*                                                                         *)
(* A declaration is [k, m, n, a]: kind, module, name and local name.       *)
(* An import is described by how it is constructed: [f, a, m], where m are *)
(* the modifiers which were called, in order.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Decl(k, m, n, a) == [k |-> k, m |-> m, n |-> n, a |-> a]
Or(x, y) == IF x = <<>> THEN y ELSE x

DOT == <<46>>
COLONS == <<58, 58>>
SLASH == 47

LastPos(s, c) ==
  LET P == {i \in 1..Len(s) : s[i] = c}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
FirstPos(s, c) ==
  LET P == {i \in 1..Len(s) : s[i] = c}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j >= i
LastSeg(s, c) == SubSeq(s, LastPos(s, c) + 1, Len(s))
HasSeg(s, c) == LastPos(s, c) > 0
FirstSeg(s, c) == IF HasSeg(s, c) THEN SubSeq(s, 1, FirstPos(s, c) - 1) ELSE s
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Rest(p, s) == SubSeq(s, Len(p) + 1, Len(s))

DartCore == <<100, 97, 114, 116, 58, 99, 111, 114, 101>>
JavaLang == <<106, 97, 118, 97, 46, 108, 97, 110, 103>>

(******************************** modifiers ********************************)
RustMod(x, mod) ==
  CASE mod[1] = "with_alias" -> [x EXCEPT !.al = mod[2], !.mode = IF @ = "mal" THEN @ ELSE "direct"]
    [] mod[1] = "with_module_alias" -> IF x.mode = "mal" THEN x ELSE [x EXCEPT !.mode = "mal", !.mal = mod[2]]
    [] mod[1] = "qualified" -> IF x.mode = "mal" THEN x ELSE [x EXCEPT !.mode = "qual"]
    [] mod[1] = "direct" -> IF x.mode = "mal" THEN x ELSE [x EXCEPT !.mode = "direct"]
PythonMod(x, mod) ==
  CASE mod[1] = "with_alias" /\ x.mode = "module" -> [x EXCEPT !.al = mod[2]]
    [] mod[1] = "with_alias" -> [x EXCEPT !.al = mod[2], !.mode = "direct", !.mal = <<>>]
    [] mod[1] = "qualified" -> [x EXCEPT !.al = <<>>, !.mode = "qual"]
    [] mod[1] = "with_module_alias" -> [x EXCEPT !.al = <<>>, !.mode = "qual", !.mal = mod[2]]
JsMod(x, mod) ==
  CASE mod[1] = "with_alias" -> [x EXCEPT !.al = mod[2], !.mode = "named"]
    [] mod[1] = "into_default" -> [x EXCEPT !.al = <<>>, !.mode = "default"]
    [] mod[1] = "into_wildcard" -> [x EXCEPT !.al = <<>>, !.mode = "wildcard"]
DartMod(x, mod) == [x EXCEPT !.al = mod[2]]
CsharpMod(x, mod) == [x EXCEPT !.mode = "qual"]

(* A normal form: module, name, alias, mode and alias of the module. *)
Import(lang, d) ==
  LET x0 == [f |-> d.f, m |-> d.a[1], n |-> IF Len(d.a) > 1 THEN d.a[2] ELSE <<>>, al |-> <<>>,
             mal |-> <<>>,
             mode |-> CASE lang = "js" -> "named"
                        [] d.f = "import_module" -> "module"
                        [] OTHER -> "default"]
      step(x, mod) == CASE lang = "rust" -> RustMod(x, mod)
                        [] lang = "python" -> PythonMod(x, mod)
                        [] lang = "js" -> JsMod(x, mod)
                        [] lang = "dart" -> DartMod(x, mod)
                        [] lang = "csharp" -> CsharpMod(x, mod)
  IN FoldLeft(step, x0, d.m)

RustMode(x, cfg) == IF x.mode # "default" THEN x.mode
                    ELSE IF cfg.mode = "q" THEN "qual" ELSE "direct"

(*************************** relative module paths *************************)
Components(p) ==
  FoldLeft(LAMBDA a, c : IF c = SLASH THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)],
           << <<>> >>, p)
RECURSIVE Common(_, _)
Common(a, b) == IF a # <<>> /\ b # <<>> /\ Head(a) = Head(b) THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
JoinPath(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, c : a \o <<SLASH>> \o c, Head(cs), Tail(cs))
UP == <<46, 46>>
Relative(base, path) ==
  LET b == Components(base)
      p == Components(path)
      n == Common(b, p)
  IN JoinPath([i \in 1..(Len(b) - n) |-> UP] \o SubSeq(p, n + 1, Len(p)))
(* The path reached by following a relative path. *)
Follow(base, rel) ==
  JoinPath(FoldLeft(LAMBDA a, c : IF c = UP THEN Front(a) ELSE Append(a, c), Components(base), Components(rel)))
JsModule(x, cfg) ==
  IF x.f = "import_path" /\ cfg.path # <<>> THEN Relative(cfg.path, x.m) ELSE x.m

(******************* how references are to be written **********************)
(* <<>> where this is not determined by the import alone (Java and C#).    *)
Form(lang, x, cfg) ==
  CASE lang = "rust" ->
         LET mode == RustMode(x, cfg) IN
         IF mode = "direct" THEN Or(x.al, x.n)
         ELSE (IF mode = "mal" THEN x.mal ELSE LastSeg(x.m, 58)) \o COLONS \o x.n
    [] lang = "python" ->
         IF x.mode = "module" THEN Or(x.al, x.m)
         ELSE IF x.mode = "qual" THEN Or(x.mal, x.m) \o DOT \o x.n
         ELSE Or(x.al, x.n)
    [] lang = "js" -> Or(x.al, x.n)
    [] lang = "dart" -> IF x.al = <<>> THEN x.n ELSE x.al \o DOT \o x.n
    [] lang = "go" -> LastSeg(x.m, SLASH) \o DOT \o x.n
    [] lang \in {"swift", "c"} -> x.n
    [] OTHER -> <<>>

(* The declarations which an import needs. *)
Needs(lang, x, cfg) ==
  CASE lang = "rust" ->
         LET mode == RustMode(x, cfg) IN
         IF mode = "direct" THEN {Decl("use", x.m \o COLONS \o x.n, <<>>, Or(x.al, x.n))}
         ELSE IF mode = "mal" THEN {Decl("use", x.m, <<>>, x.mal)}
         ELSE IF HasSeg(x.m, 58) THEN {Decl("use", x.m, <<>>, LastSeg(x.m, 58))} ELSE {}
    [] lang = "python" ->
         IF x.mode = "module" THEN {Decl("import", x.m, <<>>, x.al)}
         ELSE IF x.mode = "qual" THEN {Decl("import", x.m, <<>>, x.mal)}
         ELSE {Decl("from", x.m, x.n, x.al)}
    [] lang = "js" -> {Decl(x.mode, JsModule(x, cfg), x.n, IF x.al = x.n THEN <<>> ELSE x.al)}
    [] lang = "dart" ->
         IF x.m = DartCore /\ x.al = <<>> THEN {}
         ELSE {Decl("import", x.m, <<>>, x.al)}
              \cup (IF x.m = DartCore THEN {Decl("import", x.m, <<>>, <<>>)} ELSE {})
    [] lang \in {"go", "swift"} -> {Decl("import", x.m, <<>>, <<>>)}
    [] lang = "c" -> {Decl(IF x.f = "include" THEN "local" ELSE "system", x.m, <<>>, <<>>)}

(* What a reference is meant to denote. *)
Target(lang, x, cfg) ==
  CASE lang = "rust" -> x.m \o COLONS \o x.n
    [] lang = "python" -> IF x.mode = "module" THEN x.m ELSE x.m \o DOT \o x.n
    [] lang = "js" -> <<x.mode, JsModule(x, cfg), IF x.mode = "named" THEN x.n ELSE <<>>>>
    [] lang \in {"java", "csharp"} -> x.m \o DOT \o x.n
    [] lang = "c" -> <<IF x.f = "include" THEN "local" ELSE "system", x.m>>
    [] OTHER -> <<x.m, x.n>>

(* What a written reference may denote, given the declarations. *)
Denoted(lang, w, decls, cfg, universe) ==
  CASE lang = "rust" ->
         LET f == FirstSeg(w, 58)
         IN {d.m \o Rest(f, w) : d \in {e \in decls : e.a = f}} \cup (IF f # w THEN {w} ELSE {})
    [] lang = "python" ->
         {d.m \o DOT \o d.n : d \in {e \in decls : e.k = "from" /\ Or(e.a, e.n) = w}}
         \cup {d.m \o Rest(Or(d.a, d.m), w) :
                 d \in {e \in decls : e.k = "import" /\ (w = Or(e.a, e.m) \/ IsPre(Or(e.a, e.m) \o DOT, w))}}
    [] lang = "js" ->
         {<<d.k, d.m, IF d.k = "named" THEN d.n ELSE <<>>>> : d \in {e \in decls : Or(e.a, e.n) = w}}
    [] lang = "dart" ->
         IF HasSeg(w, 46)
         THEN {<<d.m, Rest(d.a \o DOT, w)>> : d \in {e \in decls : e.a # <<>> /\ IsPre(e.a \o DOT, w)}}
         ELSE {<<d.m, w>> : d \in {e \in decls : e.a = <<>>}}
              \cup (IF \E e \in decls : e.m = DartCore THEN {} ELSE {<<DartCore, w>>})
    [] lang = "go" ->
         {<<d.m, Rest(LastSeg(d.m, SLASH) \o DOT, w)>> :
            d \in {e \in decls : IsPre(LastSeg(e.m, SLASH) \o DOT, w)}}
    [] lang = "swift" -> {<<d.m, w>> : d \in decls}
    [] lang = "c" -> {<<d.k, d.m>> : d \in decls}
    [] OTHER -> {}

(****************************** Java and C# ********************************)
(* universe: the types which exist, as imports.                            *)
Types(universe, pkg) == {x.n : x \in {y \in universe : y.m = pkg}}

JavaDenoted(w, decls, cfg, universe) ==
  IF HasSeg(w, 46) THEN {w}
  ELSE LET single == {d.m \o DOT \o d.n : d \in {e \in decls : e.n = w}}
       IN IF single # {} THEN single
          ELSE IF cfg.pkg # <<>> /\ w \in Types(universe, cfg.pkg) THEN {cfg.pkg \o DOT \o w}
          ELSE IF w \in Types(universe, JavaLang) THEN {JavaLang \o DOT \o w}
          ELSE {}

(* Enclosing namespaces, innermost first. *)
RECURSIVE Enclosing(_)
Enclosing(ns) ==
  IF ns = <<>> THEN <<>>
  ELSE <<ns>> \o (IF HasSeg(ns, 46) THEN Enclosing(SubSeq(ns, 1, LastPos(ns, 46) - 1)) ELSE <<>>)
Namespaces(universe, cfg) == {x.m : x \in universe} \cup (IF cfg.ns = <<>> THEN {} ELSE {cfg.ns})
IsNamespace(universe, cfg, p) == \E q \in Namespaces(universe, cfg) : q = p \/ IsPre(p \o DOT, q)

CsharpDenoted(w, decls, cfg, universe) ==
  LET enc == Enclosing(cfg.ns)
      first == FirstSeg(w, 46)
  IN IF HasSeg(w, 46)
     THEN LET in == SelectSeq(enc, LAMBDA e : IsNamespace(universe, cfg, e \o DOT \o first))
          IN IF in = <<>> THEN {w} ELSE {in[1] \o DOT \o w}
     ELSE LET in == SelectSeq(enc, LAMBDA e : w \in Types(universe, e))
          IN IF in # <<>> THEN {in[1] \o DOT \o w}
             ELSE {d.m \o DOT \o w : d \in {e \in decls : w \in Types(universe, e.m)}}

DenotedAll(lang, w, decls, cfg, universe) ==
  CASE lang = "java" -> JavaDenoted(w, decls, cfg, universe)
    [] lang = "csharp" -> CsharpDenoted(w, decls, cfg, universe)
    [] OTHER -> Denoted(lang, w, decls, cfg, universe)

(* Does the reference denote what it was created for? *)
Resolves(lang, x, w, decls, cfg, universe) ==
  LET s == DenotedAll(lang, w, decls, cfg, universe)
  IN IF lang \in {"java", "csharp"} THEN s = {Target(lang, x, cfg)}
     ELSE Target(lang, x, cfg) \in s

(* Is the reference written as it was asked for? *)
Written(lang, x, w, cfg) ==
  IF lang = "java" THEN w \in {x.n, x.m \o DOT \o x.n}
  ELSE IF lang = "csharp" THEN w \in {x.m \o DOT \o x.n} \cup (IF x.mode = "qual" THEN {} ELSE {x.n})
  ELSE w = Form(lang, x, cfg)

(* How it is written without declarations. *)
Plain(lang, x, cfg) ==
  CASE lang = "java" -> IF x.m \in {JavaLang, cfg.pkg} THEN x.n ELSE x.m \o DOT \o x.n
    [] lang = "csharp" -> IF x.mode = "qual" THEN x.m \o DOT \o x.n ELSE x.n
    [] OTHER -> Form(lang, x, cfg)

Range2(s) == {s[i] : i \in 1..Len(s)}

(* Are these the right declarations for a set of imports? *)
Unique(x, universe) == \A y \in universe : y.n = x.n => y.m = x.m
Declared(lang, decls, cfg, universe) ==
  CASE lang = "java" ->
         /\ \A d \in decls : /\ d.m # JavaLang /\ d.m # cfg.pkg
                             /\ \E x \in universe : x.m = d.m /\ x.n = d.n
         /\ \A d, e \in decls : d.n = e.n => d = e
         /\ \A x \in universe : (Unique(x, universe) /\ x.m # JavaLang /\ x.m # cfg.pkg)
                                => \E d \in decls : d.m = x.m /\ d.n = x.n
    [] lang = "csharp" ->
         /\ \A d \in decls : /\ d.m # cfg.ns
                             /\ \E x \in universe : x.m = d.m
         /\ \A x \in universe : (x.mode # "qual" /\ Unique(x, universe) /\ ~(\E e \in Range2(Enclosing(cfg.ns)) : e = x.m))
                                => \E d \in decls : d.m = x.m
    [] OTHER -> decls = UNION {Needs(lang, x, cfg) : x \in universe}

(* Named deviation CsharpPrefix (known finding): a fully qualified name is *)
(* looked up from the namespace of the file, so its first component may    *)
(* denote a nested namespace.                                              *)
CsharpPrefix(x, w, cfg, universe) ==
  /\ w = x.m \o DOT \o x.n
  /\ \E e \in Range2(Enclosing(cfg.ns)) : IsNamespace(universe, cfg, e \o DOT \o FirstSeg(w, 46))
=============================================================================
