------------------------------ MODULE Strings -------------------------------
(***************************************************************************)
(* What string literals denote: one lexer, parametrised by the rules of    *)
(* the ten languages, as a machine which reads code points one by one.     *)
(* It produces a sequence of units (of the encoding of the strings of the  *)
(* language) and marks, which are negative:                                *)
(*   MOQ   a plain string opens        MTQ   a template string opens       *)
(*   MCQ   a string closes             MOE, MCE   an evaluation            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Sink

MOQ == -10
MTQ == -11
MCQ == -12
MOE == -13
MCE == -14

QUOTE == 34
BS == 92
DOLLAR == 36
LBRACE == 123
RBRACE == 125
TICK == 96

IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsOct(c) == c \in 48..55
IsDigit(c) == c \in 48..57
IdStart(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IdPart(c) == IdStart(c) \/ IsDigit(c)

(***************************** rules of languages **************************)
(* esc    simple escapes: letter -> what it denotes                        *)
(* hex    \x: <<least, most>> digits (most 99: unbounded), <<>> for none   *)
(* hexmax largest value of \x                                              *)
(* u4, u8 are \uXXXX and \UXXXXXXXX supported? brace: digits of \u{...}    *)
(* oct    \ooo: <<least, most>>                                            *)
(* enc    units of strings: code points, UTF-8 or UTF-16                   *)
(* unk    unknown escapes: "err", "id" (the character) or "keep" (both)    *)
(* eval   "" or the kind of evaluation in strings                          *)
(* nl     code points which may not occur in a literal                     *)

Esc(s) == s                \* sequence of <<letter, value>>
CEsc == << <<97,7>>, <<98,8>>, <<102,12>>, <<110,10>>, <<114,13>>, <<116,9>>, <<118,11>>, <<92,92>>, <<34,34>> >>
SQ == << <<39,39>> >>
Breaks == {0, 10, 13}

Rule0 == [esc |-> CEsc, hex |-> <<>>, hexmax |-> 1114111, u4 |-> FALSE, u8 |-> FALSE, brace |-> 0,
          oct |-> <<>>, enc |-> "cp", unk |-> "err", eval |-> "", nl |-> Breaks, ucnmin |-> 0, early |-> FALSE]

LexRule(l) ==
  CASE l = "c" ->
         [Rule0 EXCEPT !.esc = CEsc \o SQ \o << <<63,63>> >>, !.hex = <<1, 99>>, !.hexmax = 255,
                       !.u4 = TRUE, !.u8 = TRUE, !.oct = <<1, 3>>, !.enc = "utf8", !.ucnmin = 160]
    [] l = "csharp" ->
         [Rule0 EXCEPT !.esc = CEsc \o SQ \o << <<48,0>>, <<101,27>> >>, !.hex = <<1, 4>>, !.hexmax = 65535,
                       !.u4 = TRUE, !.u8 = TRUE, !.enc = "utf16", !.nl = Breaks \cup {133, 8232, 8233}]
    [] l = "dart" ->
         [Rule0 EXCEPT !.esc = << <<110,10>>, <<114,13>>, <<102,12>>, <<98,8>>, <<116,9>>, <<118,11>> >>,
                       !.hex = <<2, 2>>, !.u4 = TRUE, !.brace = 6, !.enc = "utf16", !.unk = "id", !.eval = "dart"]
    [] l = "go" ->
         [Rule0 EXCEPT !.hex = <<2, 2>>, !.hexmax = 255, !.u4 = TRUE, !.u8 = TRUE, !.oct = <<3, 3>>, !.enc = "utf8",
                       !.nl = Breaks \cup {65279}]
    [] l = "java" ->
         [Rule0 EXCEPT !.esc = << <<98,8>>, <<115,32>>, <<116,9>>, <<110,10>>, <<102,12>>, <<114,13>>,
                                  <<34,34>>, <<39,39>>, <<92,92>> >>,
                       !.early = TRUE, !.oct = <<1, 3>>, !.enc = "utf16"]
    [] l = "js" ->
         [Rule0 EXCEPT !.esc = << <<98,8>>, <<102,12>>, <<110,10>>, <<114,13>>, <<116,9>>, <<118,11>> >>,
                       !.hex = <<2, 2>>, !.u4 = TRUE, !.brace = 99, !.enc = "utf16", !.unk = "id", !.eval = "js"]
    [] l = "nix" ->
         [Rule0 EXCEPT !.esc = << <<110,10>>, <<114,13>>, <<116,9>> >>, !.unk = "id", !.eval = "nix"]
    [] l = "python" ->
         [Rule0 EXCEPT !.esc = CEsc \o SQ, !.hex = <<2, 2>>, !.u4 = TRUE, !.u8 = TRUE, !.oct = <<1, 3>>, !.unk = "keep"]
    [] l = "rust" ->
         [Rule0 EXCEPT !.esc = << <<110,10>>, <<114,13>>, <<116,9>>, <<92,92>>, <<48,0>>, <<39,39>>, <<34,34>> >>,
                       !.hex = <<2, 2>>, !.hexmax = 127, !.brace = 6]
    [] l = "swift" ->
         [Rule0 EXCEPT !.esc = << <<48,0>>, <<92,92>>, <<116,9>>, <<110,10>>, <<114,13>>, <<34,34>>, <<39,39>> >>,
                       !.brace = 8]

Languages == {"c", "csharp", "dart", "go", "java", "js", "nix", "python", "rust", "swift"}

(******************************** encodings ********************************)
IsScalar(v) == v \in 0..55295 \/ v \in 57344..1114111
Utf16Char(v) == IF v < 65536 THEN <<v>>
                ELSE <<55296 + ((v - 65536) \div 1024), 56320 + ((v - 65536) % 1024)>>
Units(enc, v) == CASE enc = "cp" -> <<v>>
                   [] enc = "utf8" -> Utf8Char(v)
                   [] enc = "utf16" -> Utf16Char(v)
Encode(l, s) ==
  LET enc == LexRule(l).enc
  IN IF \A i \in 1..Len(s) : s[i] < 128 THEN s
     ELSE FoldLeft(LAMBDA a, v : IF v < 0 THEN Append(a, v) ELSE a \o Units(enc, v), <<>>, s)

(******************************** the lexer ********************************)
(* stack: contexts, "code" (depth of braces), "str" and "tpl".             *)
(* m: n normal, b after a backslash, x/o/u/v digits of an escape, br in    *)
(*    the braces of one, d after a dollar, i in an interpolated identifier *)
Lex0 == [stack |-> << [t |-> "code", d |-> 0] >>, m |-> "n", v |-> 0, k |-> 0,
         out |-> <<>>, ok |-> TRUE]

LBad(s) == [s EXCEPT !.ok = FALSE]
Emit(s, x) == [s EXCEPT !.out = @ \o x]
Mode(s, m) == [s EXCEPT !.m = m, !.v = 0, !.k = 0]
Ctx(s) == s.stack[Len(s.stack)]
OpenCtx(s, t, mark) == [s EXCEPT !.stack = Append(@, [t |-> t, d |-> 0]), !.m = "n", !.out = Append(@, mark)]
CloseCtx(s, mark) == [s EXCEPT !.stack = Front(@), !.m = "n", !.out = Append(@, mark)]
Digit(s, c) == [s EXCEPT !.v = @ * 16 + HexVal(c), !.k = @ + 1]
OctDigit(s, c) == [s EXCEPT !.v = @ * 8 + (c - 48), !.k = @ + 1]

(* A numeric escape ended; x is how its value is meant. *)
EndHex(r, s) ==
  IF s.v > r.hexmax THEN LBad(s)
  ELSE Mode(Emit(s, IF r.enc = "utf8" THEN <<s.v>> ELSE Units(r.enc, s.v)), "n")
EndUni(r, s) ==
  IF s.v < r.ucnmin /\ s.v \notin {36, 64, 96} THEN LBad(s)
  ELSE IF r.enc = "utf16" /\ s.k = 4 THEN Mode(Emit(s, <<s.v>>), "n")    \* may be a surrogate
  ELSE IF ~IsScalar(s.v) THEN LBad(s)
  ELSE Mode(Emit(s, Units(r.enc, s.v)), "n")
EndOct(r, s) ==
  IF s.k < r.oct[1] \/ s.v > 255 THEN LBad(s)
  ELSE Mode(Emit(s, <<s.v>>), "n")

RECURSIVE LexStep(_, _, _)
LexStep(r, s, c) ==
  IF ~s.ok THEN s
  ELSE IF s.m = "n" /\ Ctx(s).t = "code" THEN
    CASE c = QUOTE -> OpenCtx(s, "str", MOQ)
      [] c = TICK /\ r.eval = "js" -> OpenCtx(s, "tpl", MTQ)
      [] c = LBRACE -> Emit([s EXCEPT !.stack[Len(s.stack)].d = @ + 1], <<c>>)
      [] c = RBRACE ->
           IF Ctx(s).d > 0 THEN Emit([s EXCEPT !.stack[Len(s.stack)].d = @ - 1], <<c>>)
           ELSE IF Len(s.stack) > 1 THEN CloseCtx(s, MCE)
           ELSE Emit(s, <<c>>)
      [] OTHER -> Emit(s, <<c>>)
  ELSE IF s.m = "n" THEN
    CASE c = QUOTE /\ Ctx(s).t = "str" -> CloseCtx(s, MCQ)
      [] c = TICK /\ Ctx(s).t = "tpl" -> CloseCtx(s, MCQ)
      [] c = BS -> Mode(s, "b")
      [] c \in r.nl -> LBad(s)
      [] c = DOLLAR /\ (r.eval \in {"dart", "nix"} \/ Ctx(s).t = "tpl") -> Mode(s, "d")
      [] OTHER -> Emit(s, Units(r.enc, c))
  ELSE IF s.m = "b" THEN
    LET e == SelectSeq(r.esc, LAMBDA p : p[1] = c) IN
    CASE r.oct # <<>> /\ IsOct(c) -> OctDigit(Mode(s, "o"), c)
      [] e # <<>> -> Mode(Emit(s, <<e[1][2]>>), "n")
      [] r.eval = "js" /\ IsDigit(c) -> IF c = 48 THEN Mode(s, "z") ELSE LBad(s)
      [] c = 120 /\ r.hex # <<>> -> Mode(s, "x")
      [] c = 117 /\ (r.u4 \/ r.brace > 0 \/ r.early) -> Mode(s, "u")
      [] c = 85 /\ r.u8 -> Mode(s, "v")
      [] c \in r.nl -> LBad(s)
      [] r.unk = "id" -> Mode(Emit(s, Units(r.enc, c)), "n")
      [] r.unk = "keep" /\ c # 78 -> Mode(Emit(s, <<BS>> \o Units(r.enc, c)), "n")
      [] OTHER -> LBad(s)
  ELSE IF s.m = "z" THEN            \* \0 in JavaScript
    IF IsDigit(c) THEN LBad(s) ELSE LexStep(r, Mode(Emit(s, <<0>>), "n"), c)
  ELSE IF s.m = "x" THEN
    IF IsHex(c)
    THEN LET t == Digit(s, c) IN
         IF t.v > 1114111 THEN LBad(t)
         ELSE IF t.k = r.hex[2] THEN EndHex(r, t) ELSE t
    ELSE IF s.k < r.hex[1] THEN LBad(s) ELSE LexStep(r, EndHex(r, s), c)
  ELSE IF s.m = "o" THEN
    IF IsOct(c) /\ s.k < r.oct[2] /\ ~(r.early /\ s.v >= 32) THEN OctDigit(s, c)
    ELSE LexStep(r, EndOct(r, s), c)
  ELSE IF s.m = "u" THEN
    IF c = LBRACE /\ s.k = 0 THEN (IF r.brace > 0 THEN Mode(s, "br") ELSE LBad(s))
    ELSE IF r.early /\ c = 117 /\ s.k = 0 THEN s
    ELSE IF ~IsHex(c) \/ ~(r.u4 \/ r.early) THEN LBad(s)
    ELSE LET t == Digit(s, c) IN
         IF t.k < 4 THEN t
         ELSE IF r.early
         THEN (IF t.v \in r.nl \cup {QUOTE, BS} /\ t.v # 0 THEN LBad(s)      \* would be read as such
               ELSE Mode(Emit(t, <<t.v>>), "n"))
         ELSE EndUni(r, t)
  ELSE IF s.m = "v" THEN
    IF ~IsHex(c) THEN LBad(s)
    ELSE LET t == Digit(s, c) IN
         IF t.v > 1114111 THEN LBad(t) ELSE IF t.k = 8 THEN EndUni(r, t) ELSE t
  ELSE IF s.m = "br" THEN
    IF c = RBRACE
    THEN (IF s.k = 0 \/ ~IsScalar(s.v) THEN LBad(s) ELSE Mode(Emit(s, Units(r.enc, s.v)), "n"))
    ELSE IF ~IsHex(c) \/ s.k >= r.brace THEN LBad(s)
    ELSE LET t == Digit(s, c) IN IF t.v > 1114111 THEN LBad(t) ELSE t
  ELSE IF s.m = "d" THEN
    IF c = LBRACE THEN OpenCtx(s, "code", MOE)
    ELSE IF r.eval = "dart"
    THEN (IF IdStart(c) THEN Mode([s EXCEPT !.out = @ \o <<MOE, c>>], "i") ELSE LBad(s))
    ELSE IF r.eval = "nix" /\ c \notin {QUOTE, BS} /\ c \notin r.nl
    THEN Mode(Emit(s, <<DOLLAR>> \o Units(r.enc, c)), "n")
    ELSE LexStep(r, Mode(Emit(s, <<DOLLAR>>), "n"), c)
  ELSE IF s.m = "i" THEN
    IF IdPart(c) THEN Emit(s, <<c>>)
    ELSE LexStep(r, Mode(Emit(s, <<MCE>>), "n"), c)
  ELSE LBad(s)

Lex(r, s) ==
  LET e == FoldLeft(LAMBDA a, c : LexStep(r, a, c), Lex0, s)
  IN IF e.ok /\ e.m = "n" /\ Len(e.stack) = 1 THEN [ok |-> TRUE, out |-> e.out]
     ELSE [ok |-> FALSE, out |-> e.out]

(* Does the literal denote the text? *)
Denotes(l, lit, text) ==
  LET e == Lex(LexRule(l), lit) IN e.ok /\ e.out = <<MOQ>> \o Encode(l, text) \o <<MCQ>>

(* Named deviation NixInterpolation (known finding): `${` in quoted text   *)
(* is not escaped.                                                         *)
NixRaw == [LexRule("nix") EXCEPT !.eval = ""]
HasInterp(text) == \E i \in 1..(Len(text) - 1) : text[i] = DOLLAR /\ text[i+1] = LBRACE
DenotesNixRaw(lit, text) ==
  /\ HasInterp(text)
  /\ LET e == Lex(NixRaw, lit) IN e.ok /\ e.out = <<MOQ>> \o text \o <<MCQ>>

(************************* escaping, as implemented ************************)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexN(_, _), HexV(_)
HexN(v, n) == IF n = 0 THEN <<>> ELSE Append(HexN(v \div 16, n - 1), HexDigit(v % 16))
HexV(v) == IF v < 16 THEN <<HexDigit(v)>> ELSE Append(HexV(v \div 16), HexDigit(v % 16))
OctN(v) == <<48 + (v \div 64), 48 + ((v \div 8) % 8), 48 + (v % 8)>>
AsciiControl(c) == c < 32 \/ c = 127
Control(c) == c < 32 \/ c \in 127..159
Short(c, set) ==
  LET m == << <<7,97>>, <<8,98>>, <<9,116>>, <<10,110>>, <<11,118>>, <<12,102>>, <<13,114>>, <<34,34>>, <<92,92>> >>
      e == SelectSeq(m, LAMBDA p : p[1] = c /\ c \in set)
  IN IF e = <<>> THEN <<>> ELSE <<BS, e[1][2]>>
Uni16(c) == FlattenSeq([i \in 1..Len(Utf16Char(c)) |-> <<BS, 117>> \o HexN(Utf16Char(c)[i], 4)])
All9 == {7, 8, 9, 10, 11, 12, 13, 34, 92}
CFamily(c) ==
  IF c \in All9 THEN Short(c, All9)
  ELSE IF c < 128 THEN (IF AsciiControl(c) THEN <<BS, 120>> \o HexN(c, 2) ELSE <<c>>)
  ELSE IF c < 65536 THEN <<BS, 117>> \o HexN(c, 4)
  ELSE <<BS, 85>> \o HexN(c, 8)

(* next: the following character of the same piece, -1 at its end *)
EncChar(l, c, next) ==
  CASE l \in {"python", "go"} -> CFamily(c)
    [] l = "c" -> IF Control(c) /\ c \notin 7..13
                  THEN FlattenSeq([i \in 1..Len(Utf8Char(c)) |-> <<BS>> \o OctN(Utf8Char(c)[i])])
                  ELSE CFamily(c)
    [] l = "csharp" -> IF AsciiControl(c) /\ c \notin 7..13 /\ (next = -1 \/ IsHex(next))
                       THEN <<BS, 117>> \o HexN(c, 4) ELSE CFamily(c)
    [] l = "dart" -> IF c \in All9 \ {7} THEN Short(c, All9)
                     ELSE IF c = DOLLAR THEN <<BS, c>>
                     ELSE IF ~Control(c) THEN <<c>> ELSE <<BS, 120>> \o HexN(c, 2)
    [] l = "java" -> IF c \in All9 \ {7, 11} THEN Short(c, All9)
                     ELSE IF c = 39 THEN <<BS, c>>
                     ELSE IF c < 128 /\ ~AsciiControl(c) THEN <<c>> ELSE Uni16(c)
    [] l = "js" -> IF c \in All9 \ {7} THEN Short(c, All9)
                   ELSE IF c = TICK THEN <<BS, c>>
                   ELSE IF c = DOLLAR /\ next \in {-1, LBRACE} THEN <<BS, c>>
                   ELSE IF ~Control(c) THEN <<c>> ELSE <<BS, 120>> \o HexN(c, 2)
    [] l = "nix" -> IF c \in {9, 10, 13, 34, 92} THEN Short(c, All9) ELSE <<c>>
    [] l = "rust" -> IF c \in {9, 10, 13, 34, 92} THEN Short(c, All9)
                     ELSE IF c = 0 THEN <<BS, 48>>
                     ELSE IF ~Control(c) THEN <<c>>
                     ELSE IF c < 128 THEN <<BS, 120>> \o HexN(c, 2)
                     ELSE <<BS, 117, LBRACE>> \o HexN(c, 4) \o <<RBRACE>>
    [] l = "swift" -> IF c \in {9, 10, 13, 34, 92} THEN Short(c, All9)
                      ELSE IF c = 0 THEN <<BS, 48>>
                      ELSE IF c = 39 THEN <<BS, c>>
                      ELSE IF ~Control(c) THEN <<c>>
                      ELSE <<BS, 117, LBRACE>> \o HexV(c) \o <<RBRACE>>
    [] OTHER -> <<c>>
EscapeString(l, s) ==
  FlattenSeq([i \in 1..Len(s) |-> EncChar(l, s[i], IF i = Len(s) THEN -1 ELSE s[i+1])])
=============================================================================
