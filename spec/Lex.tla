-------------------------------- MODULE Lex --------------------------------
(* The words of the Thrift interface description language: how the bytes   *)
(* of a document split into tokens.  A document is [b, let, dig]: its      *)
(* bytes and which of the characters beyond ASCII are letters or digits.   *)
(* Offsets count from 0; a token is [k, a, z, lo, hi]: its kind, the       *)
(* offsets of its first byte and of the byte after its last one, and, if   *)
(* it is malformed (k = "BAD"), between which offsets that is noticed.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Keywords ==
  << [s |-> "include",   b |-> <<105,110,99,108,117,100,101>>],
     [s |-> "namespace", b |-> <<110,97,109,101,115,112,97,99,101>>],
     [s |-> "const",     b |-> <<99,111,110,115,116>>],
     [s |-> "typedef",   b |-> <<116,121,112,101,100,101,102>>],
     [s |-> "enum",      b |-> <<101,110,117,109>>],
     [s |-> "struct",    b |-> <<115,116,114,117,99,116>>],
     [s |-> "union",     b |-> <<117,110,105,111,110>>],
     [s |-> "exception", b |-> <<101,120,99,101,112,116,105,111,110>>],
     [s |-> "service",   b |-> <<115,101,114,118,105,99,101>>],
     [s |-> "required",  b |-> <<114,101,113,117,105,114,101,100>>],
     [s |-> "optional",  b |-> <<111,112,116,105,111,110,97,108>>],
     [s |-> "extends",   b |-> <<101,120,116,101,110,100,115>>],
     [s |-> "oneway",    b |-> <<111,110,101,119,97,121>>],
     [s |-> "void",      b |-> <<118,111,105,100>>],
     [s |-> "throws",    b |-> <<116,104,114,111,119,115>>],
     [s |-> "map",       b |-> <<109,97,112>>],
     [s |-> "set",       b |-> <<115,101,116>>],
     [s |-> "list",      b |-> <<108,105,115,116>>] >>

KeywordNames == {Keywords[j].s : j \in 1..Len(Keywords)}
DefNames     == {"const", "typedef", "enum", "struct", "union", "exception", "service"}
Marks        == {"+", "-", "*", "/", "%", "&", "|", "^", "==", "<", ">", "=", "!", "(", "[", "{", ",", ".", ")", "]", "}", ";", ":"}
Literals     == {"IDENT", "INT", "FLOAT", "STRING"}
Kinds        == KeywordNames \cup Marks \cup Literals

\* ---------------------------------------------------------- characters

End   == 0 - 1          \* after the last byte
Wrong == 0 - 2          \* bytes that are not UTF-8
BOM   == 65279

At(d, o) == IF o < Len(d.b) THEN d.b[o + 1] ELSE End
Cont(x)  == x >= 128 /\ x < 192

\* The character at o: [c, w], code point and width.
Char(d, o) ==
  LET x == At(d, o) IN
  IF x < 128 THEN [c |-> x, w |-> IF x = End THEN 0 ELSE 1]
  ELSE LET y == At(d, o + 1)
           z == At(d, o + 2)
           u == At(d, o + 3) IN
       IF x >= 194 /\ x < 224 /\ Cont(y) THEN [c |-> (x - 192) * 64 + y - 128, w |-> 2]
       ELSE IF x >= 224 /\ x < 240 /\ Cont(y) /\ Cont(z) /\ (x # 224 \/ y >= 160) /\ (x # 237 \/ y < 160)
       THEN [c |-> ((x - 224) * 64 + y - 128) * 64 + z - 128, w |-> 3]
       ELSE IF x >= 240 /\ x < 245 /\ Cont(y) /\ Cont(z) /\ Cont(u) /\ (x # 240 \/ y >= 144) /\ (x # 244 \/ y < 144)
       THEN [c |-> (((x - 240) * 64 + y - 128) * 64 + z - 128) * 64 + u - 128, w |-> 4]
       ELSE [c |-> Wrong, w |-> 1]

Digit(c)     == c >= 48 /\ c <= 57
Hex(c)       == Digit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
AsciiLet(c)  == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
Letter(d, c) == AsciiLet(c) \/ (c >= 128 /\ (\E j \in 1..Len(d.let) : d.let[j] = c))
AnyDigit(d, c) == Digit(c) \/ (c >= 128 /\ (\E j \in 1..Len(d.dig) : d.dig[j] = c))
Part(d, c)   == Letter(d, c) \/ AnyDigit(d, c) \/ c = 46
Blank(c)     == c \in {9, 10, 13, 32}
\* Characters that are wrong wherever they are.
Illegal(c)   == c = 0 \/ c = Wrong \/ c = BOM

\* ----------------------------------------------------------- token ends

RECURSIVE PartEnd(_, _)
PartEnd(d, o) == LET x == Char(d, o) IN IF Part(d, x.c) THEN PartEnd(d, o + x.w) ELSE o
RECURSIVE DigitsEnd(_, _)
DigitsEnd(d, o) == IF Digit(At(d, o)) THEN DigitsEnd(d, o + 1) ELSE o
RECURSIVE HexEnd(_, _)
HexEnd(d, o) == IF Hex(At(d, o)) THEN HexEnd(d, o + 1) ELSE o

Tok(k, a, z)      == [k |-> k, a |-> a, z |-> z, lo |-> a, hi |-> a]
Bad(a, z)         == [k |-> "BAD", a |-> a, z |-> z, lo |-> a, hi |-> z]

\* Without a digit after 0x or an exponent's e it is no number by common
\* sense, but nothing says so: "ODD".
Exponent(d, a, o, k) ==
  IF At(d, o) \in {69, 101}
  THEN LET s == IF At(d, o + 1) \in {43, 45} THEN o + 2 ELSE o + 1
           z == DigitsEnd(d, s) IN
       Tok(IF z = s THEN "ODD" ELSE "FLOAT", a, z)
  ELSE Tok(k, a, o)

\* A number whose first digit is at o, after a sign or not.
Number(d, a, o) ==
  IF At(d, o) = 48 /\ At(d, o + 1) \in {88, 120}
  THEN LET z == HexEnd(d, o + 2) IN Tok(IF z = o + 2 THEN "ODD" ELSE "INT", a, z)
  ELSE LET z == DigitsEnd(d, o) IN
       IF At(d, z) = 46 THEN Exponent(d, a, DigitsEnd(d, z + 1), "FLOAT") ELSE Exponent(d, a, z, "INT")

\* A string that starts at a; illegal says whether an illegal character was
\* seen.
RECURSIVE StringAt(_, _, _, _, _)
StringAt(d, q, a, o, illegal) ==
  LET x == Char(d, o) IN
  IF x.c = q THEN (IF illegal THEN Bad(a, o + 1) ELSE Tok("STRING", a, o + 1))
  ELSE IF x.c = End \/ x.c = 10 THEN Bad(a, o)
  ELSE IF x.c = 92
  THEN LET y == At(d, o + 1) IN
       IF y \in {q, 92, 110, 114, 116} THEN StringAt(d, q, a, o + 2, illegal) ELSE Bad(a, o + 1)
  ELSE StringAt(d, q, a, o + x.w, illegal \/ Illegal(x.c))

\* The end of a comment: [z, ok].
RECURSIVE LineEnd(_, _, _)
LineEnd(d, o, ok) ==
  LET x == Char(d, o) IN
  IF x.c = End \/ x.c = 10 THEN [z |-> o, ok |-> ok] ELSE LineEnd(d, o + x.w, ok /\ ~Illegal(x.c))
RECURSIVE BlockEnd(_, _, _)
BlockEnd(d, o, ok) ==
  LET x == Char(d, o) IN
  IF x.c = End THEN [z |-> o, ok |-> FALSE]
  ELSE IF x.c = 42 /\ At(d, o + 1) = 47 THEN [z |-> o + 2, ok |-> ok]
  ELSE BlockEnd(d, o + x.w, ok /\ ~Illegal(x.c))

KeywordOf(b) ==
  IF Len(b) < 3 \/ Len(b) > 9 THEN "IDENT"
  ELSE LET m == {j \in 1..Len(Keywords) : Keywords[j].b = b} IN
       IF m = {} THEN "IDENT" ELSE Keywords[CHOOSE j \in m : TRUE].s

MarkOf(c) == CASE c = 43 -> "+" [] c = 45 -> "-" [] c = 42 -> "*" [] c = 47 -> "/" [] c = 37 -> "%" [] c = 38 -> "&"
               [] c = 124 -> "|" [] c = 94 -> "^" [] c = 60 -> "<" [] c = 62 -> ">" [] c = 61 -> "=" [] c = 33 -> "!"
               [] c = 40 -> "(" [] c = 91 -> "[" [] c = 123 -> "{" [] c = 44 -> "," [] c = 46 -> "." [] c = 41 -> ")"
               [] c = 93 -> "]" [] c = 125 -> "}" [] c = 59 -> ";" [] c = 58 -> ":" [] OTHER -> ""

Text(d, a, z) == SubSeq(d.b, a + 1, z)

\* The lexeme at o: white space and comments are lexemes of kind "BLANK".
Lexeme(d, o) ==
  LET x == Char(d, o)
      c == x.c
      y == At(d, o + 1)
      comment(e) == IF e.ok THEN Tok("BLANK", o, e.z) ELSE Bad(o, e.z) IN
  IF c = End THEN Tok("EOF", o, o)
  ELSE IF Blank(c) \/ (c = BOM /\ o = 0) THEN Tok("BLANK", o, o + x.w)
  ELSE IF Letter(d, c) THEN LET z == PartEnd(d, o) IN Tok(KeywordOf(Text(d, o, z)), o, z)
  ELSE IF Digit(c) THEN Number(d, o, o)
  ELSE IF c \in {43, 45} /\ Digit(y) THEN Number(d, o, o + 1)
  ELSE IF c \in {34, 39} THEN StringAt(d, c, o, o + 1, FALSE)
  ELSE IF c = 35 \/ (c = 47 /\ y = 47) THEN comment(LineEnd(d, o, TRUE))
  ELSE IF c = 47 /\ y = 42 THEN comment(BlockEnd(d, o + 2, TRUE))
  ELSE IF c = 61 /\ y = 61 THEN Tok("==", o, o + 2)
  ELSE IF MarkOf(c) # "" THEN Tok(MarkOf(c), o, o + 1)
  ELSE [Bad(o, o + x.w) EXCEPT !.hi = o]

\* The first token at or after o.
RECURSIVE Token(_, _)
Token(d, o) == LET x == Lexeme(d, o) IN IF x.k = "BLANK" THEN Token(d, x.z) ELSE x
=============================================================================
