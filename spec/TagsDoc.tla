------------------------------ MODULE TagsDoc ------------------------------
(* Reads every tag of up to MaxTokens tokens, character by character, as a *)
(* machine would, compares that with what Tags says, and generates them.   *)
EXTENDS Tags, TLC, Json

CONSTANTS Tokens, MaxTokens, Gen

A(c) == <<c, c, IF (c >= 97 /\ c <= 122) THEN 1 ELSE IF IsDigit(<<c>>) THEN 2 ELSE 0>>
U(c) == <<c, c + 32, 1>>
Word(cs) == [j \in 1..Len(cs) |-> IF cs[j] >= 65 /\ cs[j] <= 90 THEN U(cs[j]) ELSE A(cs[j])]
Chars == [one |-> Word(<<49>>), zero |-> Word(<<48>>), minus |-> Word(<<45>>), plus |-> Word(<<43>>), comma |-> Word(<<44>>), big |-> Word(<<51, 50, 55, 54, 55>>),
          over |-> Word(<<51, 50, 55, 54, 56>>), max |-> Word(<<54, 53, 53, 51, 54>>), required |-> Word(Required), Required |-> Word(<<82>> \o Tail(Required)),
          re |-> Word(<<114, 101>>), quired |-> Word(<<113, 117, 105, 114, 101, 100>>), under |-> Word(<<95>>), x |-> Word(<<120>>), space |-> Word(<<32>>),
          eacute |-> <<<<233, 233, 1>>>>, digit |-> <<<<1635, 1635, 2>>>>, snow |-> <<<<9731, 9731, 0>>>>, byte |-> <<<<1114111 + 255, 1114111 + 255, 0>>>>,
          doti |-> <<<<304, 105, 1>>>>, quote |-> Word(<<39>>), dot |-> Word(<<46>>)]

VARIABLES ops, tag, at, st, seen, opt, neg, val, nd
vars == <<ops, tag, at, st, seen, opt, neg, val, nd>>

\* st: "make" the tag, read its "id", an "opt"ion, or the verdict.
Init == /\ ops = <<>> /\ tag = <<>> /\ at = 1 /\ st = "make" /\ seen = {} /\ opt = <<>> /\ neg = FALSE /\ val = 0 /\ nd = 0

Make == /\ st = "make" /\ Len(ops) < MaxTokens
        /\ \E k \in Tokens : ops' = Append(ops, k) /\ tag' = tag \o Chars[k]
        /\ UNCHANGED <<at, st, seen, opt, neg, val, nd>>
Begin == st = "make" /\ st' = "id" /\ UNCHANGED <<ops, tag, at, seen, opt, neg, val, nd>>
Go(s, n) == st' = s /\ at' = n /\ UNCHANGED <<ops, tag>>
IdOK == nd > 0 /\ val <= (IF neg THEN 32768 ELSE 32767)
ReadId == /\ st = "id"
          /\ IF at > Len(tag) THEN Go(IF IdOK THEN "good" ELSE "bad", at) /\ UNCHANGED <<seen, opt, neg, val, nd>>
             ELSE LET x == tag[at] IN
                  CASE x[1] = Comma -> Go(IF IdOK THEN "opt" ELSE "bad", at + 1) /\ UNCHANGED <<seen, opt, neg, val, nd>>
                    [] at = 1 /\ x[1] \in {Minus, Plus} -> Go("id", at + 1) /\ neg' = (x[1] = Minus) /\ UNCHANGED <<seen, opt, val, nd>>
                    [] IsDigit(x) -> /\ Go("id", at + 1) /\ nd' = nd + 1
                                     /\ val' = (IF val > 40000 THEN val ELSE 10 * val + (x[1] - 48)) /\ UNCHANGED <<seen, opt, neg>>
                    [] OTHER -> Go("bad", at) /\ UNCHANGED <<seen, opt, neg, val, nd>>
OptOK == opt # <<>> /\ Codes(opt) \notin seen /\ ~Misspelt(opt)
ReadOpt == /\ st = "opt"
           /\ IF at > Len(tag) \/ tag[at][1] = Comma
              THEN /\ Go(IF ~OptOK THEN "bad" ELSE IF at > Len(tag) THEN "good" ELSE "opt", at + 1)
                   /\ seen' = seen \cup {Codes(opt)} /\ opt' = <<>> /\ UNCHANGED <<neg, val, nd>>
              ELSE IF (opt = <<>> /\ Start(tag[at])) \/ (opt # <<>> /\ More(tag[at]))
                   THEN Go("opt", at + 1) /\ opt' = Append(opt, tag[at]) /\ UNCHANGED <<seen, neg, val, nd>>
                   ELSE Go("bad", at) /\ UNCHANGED <<seen, opt, neg, val, nd>>
Next == Make \/ Begin \/ ReadId \/ ReadOpt
Spec == Init /\ [][Next]_vars

Says == Tag(tag)
Same == /\ st = "good" => Says.k = "field" /\ Says.id = (IF neg THEN -val ELSE val) /\ (Says.rq = 1 <=> Required \in seen)
        /\ st = "bad" => Says.k = "bad"
Dump == ~Gen \/ st # "make" \/ PrintT("GEN " \o ToJson([ops |-> ops]))
OnlyMake == st = "make"
=============================================================================
