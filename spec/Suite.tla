------------------------------- MODULE Suite -------------------------------
(* The conformance suite for protocols, run on a protocol with at most one *)
(* fault.  A message is a sequence of tokens [k, v, x]: the kind, the      *)
(* value, and the innermost struct or container it stands in.              *)
(*                                                                         *)
(* A fault is [side, act, k, from, to, x, n]:                              *)
(*   side  "w" the writer, "r" the reader, "s" the reader while skipping   *)
(*   act   "none"                                                          *)
(*         "set"    tokens of kind k and value from get the value to       *)
(*         "err"    tokens of kind k and value from are refused            *)
(*         "short"  the same, but it is the next one that is refused       *)
(*         "swap"   the first two elements of a list or set are exchanged  *)
(*         "drop"   the last element of a list or set is left out          *)
(*         "junk"   every message is followed by something nothing reads   *)
(*         "stay"   the message's end is left unread                       *)
(*         "resync" the same, but it is left out before the next message   *)
(*         "noflush" nothing written ever reaches the sink                 *)
(*   from, x  "*" for any                                                  *)
(*   n     only from the nth message after a Reset on                      *)
EXTENDS Naturals, Sequences, FiniteSets

Tok(k, v, x) == [k |-> k, v |-> v, x |-> x]
Rep(n, s) == [j \in 1..n |-> s]

Field(h) == Tok("Field", h, "Struct")
One(h, body) == <<Tok("Struct", "", "")>> \o <<Field(h)>> \o body \o <<Tok("Stop", "", "Struct")>>
Two(h1, b1, h2, b2) == <<Tok("Struct", "", "")>> \o <<Field(h1)>> \o b1 \o <<Field(h2)>> \o b2 \o <<Tok("Stop", "", "Struct")>>
In(k, v) == Tok(k, v, "Struct")
Level(v, body) == <<Tok("Struct", "", "")>> \o <<Field("12:1")>> \o body \o <<Field("11:2"), In("String", v), Field("11:3"), In("Bytes", v), Tok("Stop", "", "Struct")>>

\* The contents the suite exercises.
Cases == <<
  One("2:1", <<In("Bool", "0")>>),
  One("2:1", <<In("Bool", "1")>>),
  Two("4:1", <<In("Double", "minf")>>, "4:2", <<In("Double", "mind")>>),
  Two("4:1", <<In("Double", "maxf")>>, "4:2", <<In("Double", "maxd")>>),
  <<Tok("Struct", "", "")>> \o <<Field("6:1"), In("I16", "min"), Field("8:2"), In("I32", "min"), Field("10:3"), In("I64", "min"), Tok("Stop", "", "Struct")>>,
  <<Tok("Struct", "", "")>> \o <<Field("6:1"), In("I16", "max"), Field("8:2"), In("I32", "max"), Field("10:3"), In("I64", "max"), Tok("Stop", "", "Struct")>>,
  One("13:1", <<In("Map", "0")>>),
  One("13:1", <<In("Map", "1"), Tok("String", "hello", "Map"), Tok("String", "world", "Map")>>),
  One("14:1", <<In("Set", "0")>>),
  One("14:1", <<In("Set", "2"), Tok("String", "hello", "Set"), Tok("String", "world", "Set")>>),
  One("15:1", <<In("List", "0")>>),
  One("15:1", <<In("List", "2"), Tok("String", "hello", "List"), Tok("String", "world", "List")>>),
  One("16:1", <<In("UUID", "zero")>>),
  Level("1", Level("2", Two("11:2", <<In("String", "3")>>, "11:3", <<In("Bytes", "3")>>))),
  Two("14:32", <<In("Set", "64")>> \o Rep(64, Tok("Bool", "0", "Set")), "15:64", <<In("List", "64")>> \o Rep(64, Tok("Bool", "0", "List"))),
  One("13:0", <<In("Map", "26")>> \o [j \in 1..52 |-> IF j % 2 = 1 THEN Tok("String", "letter", "Map") ELSE Tok("Bool", "1", "Map")]) >>
UuidCase == 13
MapCase == 16

Header(c) == << Tok("Type", CASE c % 4 = 1 -> "1" [] c % 4 = 2 -> "2" [] c % 4 = 3 -> "3" [] OTHER -> "4", ""), Tok("Id", "id", ""), Tok("Name", "name", "") >>
Message(c) == Header(c) \o Cases[c] \o <<Tok("End", "", "")>>

Hits(f, tok) == (f.k = tok.k \/ (f.side = "s" /\ f.k = "String" /\ tok.k = "Bytes")) /\ f.from \in {"*", tok.v} /\ f.x \in {"*", tok.x}

\* What a message with n before it since the last Reset becomes.
Apply(f, side, n, m) ==
  IF f.side # side \/ n + 1 < f.n THEN m
  ELSE CASE f.act = "set" -> [j \in 1..Len(m) |-> IF Hits(f, m[j]) THEN [m[j] EXCEPT !.v = f.to] ELSE m[j]]
         [] f.act \in {"err", "short"} -> IF \E j \in 1..Len(m) : Hits(f, m[j]) THEN <<Tok("Error", "", "")>> ELSE m
         [] f.act = "swap" -> [j \in 1..Len(m) |-> IF j > 1 /\ Hits(f, m[j - 1]) THEN m[j + 1]
                                                  ELSE IF j > 2 /\ Hits(f, m[j - 2]) THEN m[j - 1] ELSE m[j]]
         [] f.act = "drop" -> LET hit == {j \in 1..Len(m) : Hits(f, m[j])} IN
                              IF hit = {} THEN m
                              ELSE LET j == CHOOSE j \in hit : TRUE IN SubSeq(m, 1, j - 1) \o <<[m[j] EXCEPT !.v = "1"], m[j + 1]>> \o SubSeq(m, j + 3, Len(m))
         [] f.act = "junk" -> m \o <<Tok("Junk", "", "")>>
         [] f.act = "noflush" -> <<>>
         [] OTHER -> m

\* What the verdict must be.
\* A name may be left out, and UUIDs are only used if they are declared.
Harmless(g, u) == \/ g.act = "none"
                  \/ g.act = "set" /\ g.k = "Name" /\ g.to = "empty"
                  \/ (g.k = "UUID") /\ ~u
Bad(m) == m = <<>> \/ \E j \in 1..Len(m) : m[j].k = "Error"
=============================================================================
