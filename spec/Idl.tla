-------------------------------- MODULE Idl --------------------------------
(* The Thrift interface description language as a predictive pushdown      *)
(* machine over token kinds, whose output is the syntax tree in the order  *)
(* of the source.  A stack holds                                           *)
(*   [y |-> "t", s |-> K]  a token of kind K is next,                      *)
(*   [y |-> "l", s |-> K]  the same, and its text is part of the tree,     *)
(*   [y |-> "o", s |-> L]  the tree has a node or part labelled L here,    *)
(*   [y |-> "n", s |-> N]  anything N derives.                             *)
EXTENDS Naturals, Sequences, FiniteSets

T(k)  == [y |-> "t", s |-> k]
Li(k) == [y |-> "l", s |-> k]
O(x)  == [y |-> "o", s |-> x]
N(x)  == [y |-> "n", s |-> x]

Defining == {"const", "typedef", "enum", "struct", "union", "exception", "service"}
Words    == Defining \cup {"include", "namespace", "required", "optional", "extends", "oneway", "void", "throws", "map", "set", "list"}

\* What must be there: if it is not, the definition as a whole is given up.
Vital == {"Def", "Type", "Value"}

Start == <<N("Headers"), N("Defs")>>
Error == <<[y |-> "error", s |-> ""]>>

\* A list of items in brackets, with optional separators.
Items(k, close, item, self) == IF k \in {close, "EOF"} THEN <<>> ELSE <<N(item), N("Seps"), N(self)>>
Bracket(open, close, self)  == <<T(open), O(open), N(self), T(close), O(close)>>

\* What nonterminal n expands to if the next token is of kind k.
Expand(n, k) ==
  CASE n = "Headers" ->
         (CASE k = "include" -> <<T("include"), O("include"), Li("STRING"), N("Headers")>>
            [] k = "namespace" -> <<T("namespace"), O("namespace"), N("Scope"), Li("IDENT"), N("Annots"), N("Headers")>>
            [] OTHER -> <<>>)
    [] n = "Scope" -> IF k = "*" THEN <<T("*"), O("*")>> ELSE <<Li("IDENT")>>
    [] n = "Defs" -> IF k = "EOF" THEN <<>> ELSE <<N("Def"), O("end"), N("Defs")>>
    [] n = "Def" ->
         (CASE k = "const" -> <<T(k), O(k), N("Type"), Li("IDENT"), T("="), N("Value"), N("Seps")>>
            [] k = "typedef" -> <<T(k), O(k), N("Type"), Li("IDENT"), N("Annots"), N("Seps")>>
            [] k = "enum" -> <<T(k), O(k), Li("IDENT")>> \o Bracket("{", "}", "EnumValues") \o <<N("Annots")>>
            [] k \in {"struct", "union", "exception"} -> <<T(k), O(k), Li("IDENT")>> \o Bracket("{", "}", "Fields") \o <<N("Annots")>>
            [] k = "service" -> <<T(k), O(k), Li("IDENT"), N("Extends")>> \o Bracket("{", "}", "Methods") \o <<N("Annots")>>
            [] OTHER -> Error)
    [] n = "Extends" -> IF k = "extends" THEN <<T(k), O(k), Li("IDENT")>> ELSE <<>>
    [] n = "EnumValues" -> Items(k, "}", "EnumValue", n)
    [] n = "EnumValue" -> <<O("value"), Li("IDENT"), N("EnumInt"), N("Annots")>>
    [] n = "EnumInt" -> IF k = "=" THEN <<T("="), O("="), Li("INT")>> ELSE <<>>
    [] n = "Fields" -> Items(k, "}", "Field", n)
    [] n = "Params" -> Items(k, ")", "Field", n)
    [] n = "Field" -> <<O("field"), N("FieldId"), N("Need"), N("Type"), N("Ref"), N("FieldName"), N("Default"), N("Annots")>>
    [] n = "FieldId" -> IF k = "INT" THEN <<O("id"), Li("INT"), T(":")>> ELSE <<>>
    [] n = "Need" -> IF k \in {"required", "optional"} THEN <<T(k), O(k)>> ELSE <<>>
    [] n = "Ref" -> IF k = "&" THEN <<T("&"), O("&")>> ELSE <<>>
    [] n = "FieldName" -> IF k \in Words THEN <<Li(k)>> ELSE <<Li("IDENT")>>
    [] n = "Default" -> IF k = "=" THEN <<T("="), O("="), N("Value")>> ELSE <<>>
    [] n = "Methods" -> Items(k, "}", "Method", n)
    [] n = "Method" -> <<O("method"), N("OneWay"), N("Return"), Li("IDENT")>> \o Bracket("(", ")", "Params") \o <<N("Throws"), N("Annots")>>
    [] n = "OneWay" -> IF k = "oneway" THEN <<T(k), O(k)>> ELSE <<>>
    [] n = "Return" -> IF k = "void" THEN <<T(k), O(k)>> ELSE <<N("Type")>>
    [] n = "Throws" -> IF k = "throws" THEN <<T(k), O(k)>> \o Bracket("(", ")", "Params") ELSE <<>>
    [] n = "Type" ->
         (CASE k = "IDENT" -> <<O("type"), Li("IDENT"), N("Annots")>>
            [] k = "map" -> <<T("map"), O("map"), T("<"), N("Type"), T(","), N("Type"), T(">"), N("Annots")>>
            [] k \in {"set", "list"} -> <<T(k), O(k), T("<"), N("Type"), T(">"), N("Annots")>>
            [] OTHER -> Error)
    [] n = "Value" ->
         (CASE k \in {"IDENT", "INT", "FLOAT", "STRING"} -> <<Li(k)>>
            [] k = "[" -> Bracket("[", "]", "Values")
            [] k = "{" -> Bracket("{", "}", "Pairs")
            [] OTHER -> Error)
    [] n = "Values" -> Items(k, "]", "Value", n)
    [] n = "Pairs" -> Items(k, "}", "Pair", n)
    [] n = "Pair" -> <<N("Value"), T(":"), N("Value")>>
    [] n = "Annots" -> IF k = "(" THEN <<T("("), O("("), N("AnnotList"), T(")"), O(")")>> ELSE <<>>
    [] n = "AnnotList" -> Items(k, ")", "Annot", n)
    [] n = "Annot" -> <<Li("IDENT"), N("AnnotValue")>>
    [] n = "AnnotValue" -> IF k = "=" THEN <<T("="), O("="), Li("STRING")>> ELSE <<>>
    [] n = "Seps" -> IF k \in {",", ";"} THEN <<T(k), N("Seps")>> ELSE <<>>

Nonterminals == {"Headers", "Scope", "Defs", "Def", "Extends", "EnumValues", "EnumValue", "EnumInt", "Fields", "Params", "Field",
                 "FieldId", "Need", "Ref", "FieldName", "Default", "Methods", "Method", "OneWay", "Return", "Throws", "Type",
                 "Value", "Values", "Pairs", "Pair", "Annots", "AnnotList", "Annot", "AnnotValue", "Seps"}

\* Expands the stack up to the next output or token, without consuming
\* either: the top is then "t", "l" or "o", or the stack is empty, or the
\* top is the vital nonterminal that cannot be expanded.
RECURSIVE Settle(_, _)
Settle(st, k) ==
  IF st = <<>> \/ Head(st).y # "n" THEN st
  ELSE LET e == Expand(Head(st).s, k) IN
       IF e = Error THEN st ELSE Settle(e \o Tail(st), k)

\* ... and drops the outputs.
RECURSIVE Quiet(_, _)
Quiet(st, k) ==
  LET s == Settle(st, k) IN
  IF s # <<>> /\ Head(s).y = "o" THEN Quiet(Tail(s), k) ELSE s

\* The stack after a token, <<Error>>-marked if the token is wrong.
Accepts(st, k) ==
  LET s == Quiet(st, k) IN
  IF k = "EOF" THEN s = <<>> ELSE s # <<>> /\ Head(s).y \in {"t", "l"} /\ Head(s).s = k
Eat(st, k) == Tail(Quiet(st, k))
=============================================================================
