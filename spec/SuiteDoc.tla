----------------------------- MODULE SuiteDoc ------------------------------
(* Runs the suite on every fault: which of its checks finds it.            *)
EXTENDS Suite, TLC, Json

CONSTANTS Checks, Gen    \* what the suite looks at

Fault(side, act, k, from, to, x, n) == [side |-> side, act |-> act, k |-> k, from |-> from, to |-> to, x |-> x, n |-> n]
Plain(side, act) == Fault(side, act, "", "", "", "*", 0)

Others == [Bool |-> {"0", "1"}, I16 |-> {"min", "max", "zero", "low"}, I32 |-> {"min", "max", "zero", "low"}, I64 |-> {"min", "max", "zero", "low"},
           Double |-> {"minf", "mind", "maxf", "maxd", "zero", "float"}, String |-> {"hello", "world", "1", "2", "3", "letter", "empty", "x"},
           Bytes |-> {"1", "3", "empty", "x"}, UUID |-> {"other"}, Type |-> {"0", "1", "2", "3", "4", "5"}, Id |-> {"other", "zero", "neg", "one"}, Name |-> {"other", "lower", "cut", "const"},
           Field |-> {"2:99", "13:99", "13:7", "14:99", "14:0", "15:99", "15:63", "12:99", "11:99", "4:99", "6:99", "8:99", "10:99"},
           Map |-> {"0", "25"}, Set |-> {"0", "63"}, List |-> {"0", "63"}]
Kinds == DOMAIN Others
TypeOf(h) == IF h \in {"2:1", "2:99"} THEN "2" ELSE SubSeq(h, 1, 2)
AllTokens == UNION {{Message(c)[j] : j \in 1..Len(Message(c))} : c \in 1..Len(Cases)}
Values(k) == {tok.v : tok \in {u \in AllTokens : u.k = k}}
Contexts == {"*", "Struct", "Map", "Set", "List"}

\* Sizes can only be changed by the reader without changing the elements too.
Sides(k) == IF k \in {"Map", "Set", "List"} THEN {"r"} ELSE {"r", "w"}
Alters(k, from, to) ==
  /\ from # to
  /\ k = "Field" => TypeOf(from) = TypeOf(to)
  /\ k \in {"Map", "Set", "List"} => from # "0" /\ (to \in {"25", "63"} => from \in {"26", "64"})
  /\ to = "float" => from \in {"mind", "maxd"}

Sets == UNION {UNION {{Fault(side, "set", k, from, to, x, 0) : side \in Sides(k), to \in Others[k], x \in Contexts} : from \in Values(k)} : k \in Kinds}
Useful == {g \in Sets : Alters(g.k, g.from, g.to) /\ (\E tok \in AllTokens : Hits(g, tok)) /\ (g.x = "*" \/ g.k \in {"Bool", "String"})}
\* Only strings and UUIDs are skipped other than by reading them.
Errs == UNION {{Fault(side, "err", k, "*", "", "*", 0) : side \in {"r", "w"}} : k \in (Kinds \cup {"Struct", "Stop", "End"})}
        \cup {Fault("s", act, k, "*", "", "*", 0) : act \in {"err", "short"}, k \in {"String", "UUID"}}
LateErrs == {Fault("r", "err", k, "*", "", "*", n) : k \in {"Type", "Struct", "End", "Bool"}, n \in {2, 3}}
            \cup {Fault("s", act, k, "*", "", "*", n) : act \in {"err", "short"}, k \in {"String", "UUID"}, n \in {2, 3}}
Lates == {Fault("w", "set", "Bool", "1", "0", "*", n) : n \in {2, 3, 4}} \cup {Fault("w", "set", "I32", "max", "min", "*", n) : n \in {2, 3, 4}}
         \cup {Fault("w", "set", "Id", "id", "other", "*", n) : n \in {2, 3, 4}}
Moves == {Fault(side, act, k, "2", "", "*", 0) : side \in {"w"}, act \in {"swap", "drop"}, k \in {"Set", "List"}}
Rest == {Plain("r", "none"), Plain("w", "junk"), Plain("r", "stay"), Plain("r", "resync"), Plain("w", "noflush")}
        \cup {Fault("w", "junk", "", "", "", "*", n) : n \in {2, 3, 4}}
\* A name may be left out.
NoName == {Fault(side, "set", "Name", "*", "empty", "*", 0) : side \in {"r", "w"}}

Faults == Useful \cup Errs \cup LateErrs \cup Moves \cup Lates \cup Rest \cup NoName

VARIABLES f, uuid, c, phase, wn, rn, buf, first, got, failed
vars == <<f, uuid, c, phase, wn, rn, buf, first, got, failed>>

Init == /\ f \in Faults /\ uuid \in BOOLEAN
        /\ c = 1 /\ phase = "write" /\ wn = 0 /\ rn = 0 /\ buf = <<>> /\ first = <<>> /\ got = <<>> /\ failed = FALSE

Done == c > Len(Cases) \/ failed
Fail == failed' = TRUE /\ UNCHANGED <<f, uuid, c, phase, wn, rn, buf, first, got>>
Move(p) == phase' = p /\ UNCHANGED <<f, uuid, c>>

\* A message at the front of the buffer, up to its end, or the error.
From(b) == IF f.act = "resync" /\ \E j \in 1..Len(b) : b[j].k = "Type"
           THEN SubSeq(b, CHOOSE j \in 1..Len(b) : b[j].k = "Type" /\ \A i \in 1..j - 1 : b[i].k # "Type", Len(b)) ELSE b
Front(b) == IF b = <<>> \/ b[1].k # "Type" \/ ~\E j \in 1..Len(b) : b[j].k = "End" THEN <<>>
            ELSE SubSeq(b, 1, CHOOSE j \in 1..Len(b) : b[j].k = "End" /\ \A i \in 1..j - 1 : b[i].k # "End")
Rest1(b) == LET m == Front(b) IN
            IF f.act \in {"stay", "resync"} THEN SubSeq(b, Len(m), Len(b)) ELSE SubSeq(b, Len(m) + 1, Len(b))

Write == /\ phase = "write"
         /\ LET m == Apply(f, "w", 0, Message(c)) IN
            IF \E j \in 1..Len(m) : m[j].k = "Error" THEN Fail
            ELSE /\ buf' = m /\ first' = m /\ wn' = 1 /\ rn' = 0 /\ Move("read") /\ UNCHANGED <<got, failed>>
Read == /\ phase = "read"
        /\ LET b == Apply(f, "r", 0, Front(From(buf))) IN
           IF Bad(b) THEN Fail
           ELSE /\ got' = b /\ buf' = Rest1(From(buf)) /\ Move("compare") /\ UNCHANGED <<wn, rn, first, failed>>
NameOf(m) == m[3].v
Compare == /\ phase = "compare"
           /\ LET h == \A j \in 1..2 : got[j] = Message(c)[j]
                  nm == NameOf(got) \in {"name", "empty"}
                  body == SubSeq(got, 4, Len(got)) = SubSeq(Message(c), 4, Len(Message(c)))
              IN IF \/ "header" \in Checks /\ ~(h /\ nm)
                    \/ "decoded" \in Checks /\ ~body
                    \/ "leftover" \in Checks /\ buf # <<>>
                 THEN Fail
                 ELSE /\ Move("again") /\ UNCHANGED <<wn, rn, buf, first, got, failed>>
Again == /\ phase = "again"
         /\ IF wn = 4 \/ (c = MapCase) \/ "again" \notin Checks
            THEN /\ Move("skip") /\ rn' = 0 /\ buf' = <<>> /\ UNCHANGED <<wn, first, got, failed>>
            ELSE LET m == Apply(f, "w", wn, Header(c) \o SubSeq(got, 4, Len(got))) IN
                 IF m # first THEN Fail
                 ELSE /\ wn' = wn + 1 /\ Move("again") /\ UNCHANGED <<rn, buf, first, got, failed>>
Skip == /\ phase = "skip"
        /\ IF rn = 3 \/ "skip" \notin Checks
           THEN /\ c' = c + (IF c + 1 = UuidCase /\ ~uuid THEN 2 ELSE 1) /\ phase' = "write" /\ UNCHANGED <<f, uuid, wn, rn, buf, first, got, failed>>
           ELSE LET b == From(buf \o first)
                    m == Apply(f, "r", rn, Apply(f, "s", rn, Front(b))) IN
                IF Bad(m) THEN Fail
                ELSE /\ rn' = rn + 1 /\ buf' = Rest1(b) /\ Move("skip") /\ UNCHANGED <<wn, first, got, failed>>
Next == ~Done /\ (Write \/ Read \/ Compare \/ Again \/ Skip)
Spec == Init /\ [][Next]_vars

Verdict == Done => (failed <=> ~Harmless(f, uuid))

Short == [f |-> f, uuid |-> uuid, c |-> c, phase |-> phase, failed |-> failed]
Dump == ~Gen \/ ~Done \/ PrintT("GEN " \o ToJson([f |-> f, uuid |-> uuid]))
=============================================================================
