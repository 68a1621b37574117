------------------------------ MODULE IdlDoc -------------------------------
(* Explores the pushdown machine of Idl: every stack it can have, up to a  *)
(* length, by a shortest document that leads there.  A token is right if   *)
(* and only if some document continues with it: every stack can be brought *)
(* to an end (CanEnd), so that the first token that is refused is the      *)
(* first one after which no document can follow.                           *)
EXTENDS Idl, TLC, Json, IOUtils

CONSTANTS MaxStack, MaxPath, Gen

Kinds == Words \cup {"+", "-", "*", "/", "%", "&", "|", "^", "==", "<", ">", "=", "!", "(", "[", "{", ",", ".", ")", "]", "}", ";", ":",
                     "IDENT", "INT", "FLOAT", "STRING"}

VARIABLES st, path
vars == <<st, path>>

\* Terminals and nonterminals left, without what has no effect on what may
\* follow.
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN <<>> ELSE IF Head(s).y = "o" THEN Strip(Tail(s)) ELSE <<Head(s)>> \o Strip(Tail(s))

Init == st = Strip(Start) /\ path = <<>>
Next == \E k \in Kinds :
          /\ Len(path) < MaxPath
          /\ Accepts(st, k)
          /\ st' = Strip(Eat(st, k))
          /\ Len(st') <= MaxStack
          /\ path' = Append(path, k)
Spec == Init /\ [][Next]_vars

\* The number of tokens that end what a symbol began, by the shortest way:
\* the kind to choose for each nonterminal.
Best == [n \in Nonterminals |->
  CASE n = "Headers" -> "EOF" [] n = "Scope" -> "*" [] n = "Defs" -> "EOF" [] n = "Def" -> "enum" [] n = "Extends" -> "{"
    [] n \in {"EnumValues", "Fields", "Methods", "Pairs"} -> "}" [] n \in {"Params", "AnnotList"} -> ")" [] n = "Values" -> "]"
    [] n \in {"EnumValue", "Annot", "FieldName", "Type", "Value", "Pair"} -> "IDENT"
    [] n = "Field" -> "IDENT" [] n = "Method" -> "void" [] n = "Return" -> "void" [] OTHER -> "IDENT"]
\* ... and those tokens; "stuck" if the choice is none.
RECURSIVE Finish(_, _)
Finish(s, fuel) ==
  IF fuel = 0 THEN <<"stuck">>
  ELSE IF s = <<>> THEN <<>>
  ELSE IF Head(s).y = "n"
  THEN LET e == Expand(Head(s).s, Best[Head(s).s]) IN IF e = Error THEN <<"stuck">> ELSE Finish(e \o Tail(s), fuel - 1)
  ELSE IF Head(s).y = "o" THEN Finish(Tail(s), fuel - 1)
  ELSE <<Head(s).s>> \o Finish(Tail(s), fuel - 1)
RECURSIVE Feed(_, _)
Feed(s, ks) == IF ks = <<>> THEN Accepts(s, "EOF") ELSE Accepts(s, Head(ks)) /\ Feed(Eat(s, Head(ks)), Tail(ks))
CanEnd == Feed(st, Finish(st, 200))

\* Two things would make a parser without lookahead go wrong: an optional
\* part that may start like what follows it.  Here the greedy choice is the
\* only one: after declining the part the token would not be accepted,
\* unless the part is a separator.
Optional == {"Extends", "EnumInt", "FieldId", "Need", "Ref", "Default", "OneWay", "Throws", "Annots", "AnnotValue"}
RECURSIVE Declined(_, _)
Declined(s, k) ==
  IF s = <<>> \/ Head(s).y # "n" THEN {}
  ELSE LET e == Expand(Head(s).s, k) IN
       (IF Head(s).s \in Optional /\ e # <<>> THEN {Tail(s)} ELSE {}) \cup (IF e = Error THEN {} ELSE Declined(Strip(e) \o Tail(s), k))
Deterministic == \A k \in Kinds : Accepts(st, k) => \A d \in Declined(st, k) : ~Accepts(d, k)

\* Recovery: whatever a definition was given up at, a definition keyword
\* begins a definition after it.
AfterRecovery == \A k \in Defining : Accepts(<<N("Defs")>>, k)

\* Each stack once, with the words that are right and those that are wrong.
Dump == ~Gen \/ PrintT("GEN " \o ToJson([path |-> path, end |-> Accepts(st, "EOF"),
                                  right |-> {[k |-> k, fin |-> Finish(Eat(st, k), 200)] : k \in {j \in Kinds : Accepts(st, j)}}]))
View == st
=============================================================================
