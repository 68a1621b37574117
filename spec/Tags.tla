-------------------------------- MODULE Tags --------------------------------
(* The `thrift` tags of struct fields.  A tag is a sequence of characters  *)
(* <<c, l, k>>: the code point, that of its lower case, and the class (1   *)
(* letter, 2 number, 0 other); bytes that are no UTF-8 have codes of their *)
(* own of class 0.  A field is [exp, has, tag]: exported, tagged.          *)
EXTENDS Integers, Sequences, FiniteSets

Comma == 44
Minus == 45
Plus == 43
Under == 95
IsDigit(x) == x[1] >= 48 /\ x[1] <= 57

\* The parts of a tag between commas.
RECURSIVE Parts(_)
Parts(s) == LET at == {j \in 1..Len(s) : s[j][1] = Comma} IN
            IF at = {} THEN <<s>>
            ELSE LET j == CHOOSE j \in at : \A i \in at : j <= i IN <<SubSeq(s, 1, j - 1)>> \o Parts(SubSeq(s, j + 1, Len(s)))

\* A decimal number, at most one more than the largest.
RECURSIVE Value(_, _)
Value(s, v) == IF s = <<>> \/ v > 40000 THEN v ELSE Value(Tail(s), 10 * v + (s[1][1] - 48))
Signed(s) == s # <<>> /\ s[1][1] \in {Minus, Plus}
Digits(s) == IF Signed(s) THEN Tail(s) ELSE s
IsId(s) == LET d == Digits(s) IN
           /\ d # <<>> /\ \A j \in 1..Len(d) : IsDigit(d[j])
           /\ Value(d, 0) <= (IF s[1][1] = Minus THEN 32768 ELSE 32767)
Id(s) == IF s[1][1] = Minus THEN -Value(Digits(s), 0) ELSE Value(Digits(s), 0)

Start(x) == x[1] = Under \/ x[3] = 1
More(x) == x[1] = Under \/ x[3] \in {1, 2}
IsOption(s) == s # <<>> /\ Start(s[1]) /\ \A j \in 1..Len(s) : More(s[j])

Required == <<114, 101, 113, 117, 105, 114, 101, 100>>
Codes(s) == [j \in 1..Len(s) |-> s[j][1]]
\* An option with its letters in lower case and its underscores left out.
Norm(s) == LET t == SelectSeq(s, LAMBDA x : x[1] # Under) IN [j \in 1..Len(t) |-> t[j][2]]
Misspelt(s) == Codes(s) # Required /\ Norm(s) = Required

Bad == [k |-> "bad"]
Ignored == [k |-> "ignored"]
Tag(s) == LET p == Parts(s)
              opts == {j \in 2..Len(p) : TRUE}
          IN IF /\ IsId(p[1])
                /\ \A j \in opts : IsOption(p[j]) /\ ~Misspelt(p[j])
                /\ \A i, j \in opts : i # j => Codes(p[i]) # Codes(p[j])
             THEN [k |-> "field", id |-> Id(p[1]), rq |-> IF \E j \in opts : Codes(p[j]) = Required THEN 1 ELSE 0]
             ELSE Bad

Field(f) == IF f.has = 1 /\ Codes(f.tag) = <<Minus>> THEN Ignored
            ELSE IF f.exp = 0 THEN IF f.has = 1 THEN Bad ELSE Ignored
            ELSE Tag(f.tag)   \* no tag is like an empty one

\* The fields of a struct, or Bad.
Fields(fs) == [j \in 1..Len(fs) |-> Field(fs[j])]
Refused(fs) == LET v == Fields(fs)
                   kept == {j \in 1..Len(fs) : v[j].k = "field"} IN
               \/ \E j \in 1..Len(fs) : v[j].k = "bad"
               \/ fs # <<>> /\ kept = {} /\ \A j \in 1..Len(fs) : fs[j].has = 0
               \/ \E i, j \in kept : i # j /\ v[i].id = v[j].id
=============================================================================
