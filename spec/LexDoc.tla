------------------------------ MODULE LexDoc -------------------------------
(* Compares the scanner of Lex with a definition of the tokens by what     *)
(* they look like, for every text of up to MaxLen characters of Alphabet:  *)
(* the lexemes follow one another without a gap, each looks like its kind, *)
(* and none could be longer.                                               *)
EXTENDS Lex, TLC

CONSTANTS MaxLen, Alphabet

VARIABLE b
vars == <<b>>

D == [b |-> b, let |-> <<>>, dig |-> <<>>]

Init == b = <<>>
Next == Len(b) < MaxLen /\ \E c \in Alphabet : b' = Append(b, c)
Spec == Init /\ [][Next]_vars

All(s, P(_)) == \A j \in 1..Len(s) : P(s[j])
Drop(s, n)   == SubSeq(s, n + 1, Len(s))
Digits(s)    == s # <<>> /\ All(s, Digit)

IsIdent(s) == s # <<>> /\ AsciiLet(s[1]) /\ All(s, LAMBDA c : AsciiLet(c) \/ Digit(c) \/ c = 46)
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IsInt(s) == LET u == Unsigned(s) IN
            Digits(u) \/ (Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {88, 120} /\ All(Drop(u, 2), Hex))
IsFloat(s) ==
  LET u == Unsigned(s)
      mantissa(x) == Digits(x) \/ \E j \in 1..Len(x) : x[j] = 46 /\ Digits(SubSeq(x, 1, j - 1)) /\ All(Drop(x, j), Digit)
      exponent(x) == Digits(Unsigned(x)) IN
  (mantissa(u) /\ ~Digits(u)) \/ \E j \in 1..Len(u) : u[j] \in {69, 101} /\ mantissa(SubSeq(u, 1, j - 1)) /\ exponent(Drop(u, j))
\* A backslash takes the next character with it.
RECURSIVE Body(_, _)
Body(s, q) == IF s = <<>> THEN FALSE
              ELSE IF s[1] = q THEN Len(s) = 1
              ELSE IF s[1] = 92 THEN Len(s) > 1 /\ s[2] \in {q, 92, 110, 114, 116} /\ Body(Drop(s, 2), q)
              ELSE s[1] # 10 /\ s[1] # 0 /\ Body(Tail(s), q)
IsString(s) == Len(s) > 1 /\ s[1] \in {34, 39} /\ Body(Tail(s), s[1])
IsLine(s) == s # <<>> /\ (s[1] = 35 \/ (Len(s) > 1 /\ s[1] = 47 /\ s[2] = 47)) /\ All(s, LAMBDA c : c # 10 /\ c # 0)
IsBlock(s) == Len(s) >= 4 /\ s[1] = 47 /\ s[2] = 42 /\ s[Len(s) - 1] = 42 /\ s[Len(s)] = 47 /\ All(s, LAMBDA c : c # 0)
              /\ \A j \in 3..(Len(s) - 2) : ~(s[j] = 42 /\ s[j + 1] = 47)
IsMark(s) == (Len(s) = 1 /\ MarkOf(s[1]) # "") \/ s = <<61, 61>>
IsBlank(s) == (Len(s) = 1 /\ Blank(s[1])) \/ IsLine(s) \/ IsBlock(s)

Is(k, s) == CASE k = "IDENT" -> IsIdent(s) /\ \A j \in 1..Len(Keywords) : Keywords[j].b # s
              [] k = "INT" -> IsInt(s)
              [] k = "FLOAT" -> IsFloat(s)
              [] k = "STRING" -> IsString(s)
              [] k = "BLANK" -> IsBlank(s)
              [] k \in Marks -> IsMark(s)
              [] k \in KeywordNames -> \E j \in 1..Len(Keywords) : Keywords[j].s = k /\ Keywords[j].b = s
              [] OTHER -> TRUE
Some(s) == IsIdent(s) \/ IsInt(s) \/ IsFloat(s) \/ IsString(s) \/ IsMark(s) \/ IsBlank(s)

RECURSIVE Good(_)
Good(o) ==
  LET x == Lexeme(D, o) IN
  IF x.k \in {"EOF"} THEN o = Len(b)
  ELSE /\ x.a = o /\ x.z > o /\ x.z <= Len(b)
       /\ x.k \in Kinds \cup {"BLANK", "BAD", "ODD"}
       /\ x.k # "ODD" => Is(x.k, Text(D, x.a, x.z))
       /\ x.k \notin {"BAD", "ODD"} => \A z \in (x.z + 1)..Len(b) : ~Some(Text(D, o, z))
       \* What is malformed cannot be read as something else, except that a
       \* comment begins like a mark and an exponent like a shorter number.
       /\ x.k = "BAD" => \A z \in (o + 1)..Len(b) : Some(Text(D, o, z)) => IsMark(Text(D, o, z)) \/ IsLine(Text(D, o, z))
       /\ x.k = "BAD" => x.lo >= x.a /\ x.lo <= x.hi /\ x.hi <= x.z
       /\ (x.k \in {"BAD", "ODD"} \/ Good(x.z))
Maximal == Good(0)
=============================================================================
