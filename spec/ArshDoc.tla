------------------------------ MODULE ArshDoc ------------------------------
(* Marshal and Unmarshal run against each other: every call Marshal makes  *)
(* is delivered to Unmarshal, for all types of a small universe, all small *)
(* values of them, all small destinations, and all orders of map entries.  *)
(* The outcome has to be the one that is stated without machines: Merge    *)
(* for a destination in use, and Rt for a zero one.                        *)
EXTENDS Arshal, TLC, Json, IOUtils

CONSTANTS Univ       \* which universe
Gen == "GEN" \in DOMAIN IOEnv

\* ---------------------------------------------------------------- types
T0(k)        == [k |-> k, a |-> <<>>, rq |-> <<>>]
T1(k, a)     == [k |-> k, a |-> <<a>>, rq |-> <<>>]
TMapOf(a, b) == [k |-> "map", a |-> <<a, b>>, rq |-> <<>>]
TStr(a, rq)  == [k |-> "struct", a |-> a, rq |-> rq]

TD(k, ky, el, fs) == [k |-> k, el |-> el, ky |-> ky, fs |-> fs, nm |-> "", zm |-> "", zc |-> <<>>]

\* Fields get descending IDs: they are written in the order of the IDs,
\* not that of declaration.
FieldIds == <<9, -1, 4>>

RECURSIVE Flat(_, _), FlatAll(_, _, _)
\* Appends the types of the tree to tab; the tree's own is the last.
Flat(tab, x) ==
  LET r == FlatAll(tab, x.a, <<>>)
      at == r.at IN
  Append(r.tab,
    CASE x.k = "map" -> TD("map", at[1], at[2], <<>>)
      [] x.k \in {"list", "set", "ptr"} -> TD(x.k, 0, at[1], <<>>)
      [] x.k = "struct" -> TD("struct", 0, 0, [i \in 1..Len(at) |->
            [id |-> FieldIds[i], nm |-> <<"A", "B", "C">>[i], t |-> at[i], rq |-> x.rq[i], ig |-> 0]])
      [] OTHER -> TD(x.k, 0, 0, <<>>))
FlatAll(tab, xs, at) ==
  IF xs = <<>> THEN [tab |-> tab, at |-> at]
  ELSE LET n == Flat(tab, Head(xs)) IN FlatAll(n, Tail(xs), Append(at, Len(n)))

Leaf  == {T0("bool"), T0("i16"), T0("string"), T0("bytes")}
Few   == {T0("bool"), T0("string")}
Over(S) == {T1(k, a) : k \in {"list", "set", "ptr"}, a \in S} \cup {TMapOf(T0("bool"), a) : a \in S}
             \cup {TStr(<<a>>, <<q>>) : a \in S, q \in {0, 1}}
D1    == Over(Few)
Pairs(S, R) == {TStr(<<a, b>>, <<0, q>>) : a \in S, b \in R, q \in {0, 1}}

Trees ==
  CASE Univ = "flat"   -> Leaf \cup Over(Leaf) \cup {TMapOf(a, b) : a \in Leaf \ {T0("bytes")}, b \in Few} \cup Pairs(Leaf, Leaf)
    [] Univ = "nested" -> Over(D1)
    [] Univ = "pairs"  -> Pairs(D1, Few)
    [] Univ = "deep"   -> Over(Over(Over({T0("bool")})))

\* --------------------------------------------------------------- values
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
MaxLen == IF Univ = "flat" THEN 2 ELSE 1

RECURSIVE Vals(_, _)
Vals(tt, t) ==
  LET e == tt[t] IN
  CASE e.k = "bool" -> {Scalar(<<0>>), Scalar(<<1>>)}
    [] e.k = "i16" -> {Scalar(<<0, 0>>), Scalar(<<255, 3>>)}
    [] e.k = "string" -> {Scalar(<<>>), Scalar(<<97>>)}
    [] e.k = "bytes" -> {NilV, Scalar(<<>>), Scalar(<<0>>)}
    [] e.k \in {"list", "set"} -> {NilV} \cup {Comp(q) : q \in Seqs(Vals(tt, e.el), MaxLen)}
    [] e.k = "ptr" -> {NilV} \cup {Comp(<<x>>) : x \in Vals(tt, e.el)}
    [] e.k = "map" ->
         LET K == Vals(tt, e.ky)
             X == Vals(tt, e.el) IN
         {NilV, Comp(<<>>)} \cup {Comp(<<k, x>>) : k \in K, x \in X}
           \cup {Comp(<<Zero(tt, e.ky), e1, k, e2>>) : k \in K \ {Zero(tt, e.ky)}, e1 \in X, e2 \in X}
    [] e.k = "struct" ->
         LET n == Len(e.fs) IN
         IF n = 1 THEN {Comp(<<x>>) : x \in Vals(tt, e.fs[1].t)}
         ELSE {Comp(<<x, w>>) : x \in Vals(tt, e.fs[1].t), w \in Vals(tt, e.fs[2].t)}

\* ------------------------------------------------------- what has to be
\* What old becomes when v is unmarshalled into it.
RECURSIVE Merge(_, _, _, _)
MapGet(m, k) == LET S == {j \in 1..(Len(m.c) \div 2) : m.c[2 * j - 1].b = k.b} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Merge(tt, t, old, new) ==
  LET e == tt[t] IN
  CASE e.k = "ptr" -> Comp(<<Merge(tt, e.el, IF old.n = 1 THEN Zero(tt, e.el) ELSE old.c[1], IF new.n = 1 THEN Zero(tt, e.el) ELSE new.c[1])>>)
    [] e.k = "struct" ->
         Comp([i \in 1..Len(e.fs) |-> IF e.fs[i].rq = 0 /\ IsZero(tt, e.fs[i].t, new.c[i]) THEN old.c[i]
                                      ELSE Merge(tt, e.fs[i].t, old.c[i], new.c[i])])
    [] e.k \in {"list", "set"} -> Comp([i \in 1..Len(new.c) |-> Merge(tt, e.el, Zero(tt, e.el), new.c[i])])
    [] e.k = "map" ->
         LET kept == {j \in 1..(Len(old.c) \div 2) : MapGet(new, old.c[2 * j - 1]) = 0}
             RECURSIVE Keep(_)
             Keep(S) == IF S = {} THEN <<>> ELSE LET j == CHOOSE j \in S : TRUE IN <<old.c[2 * j - 1], old.c[2 * j]>> \o Keep(S \ {j}) IN
         Comp(Keep(kept) \o
              [i \in 1..Len(new.c) |->
                 IF i % 2 = 1 THEN new.c[i]
                 ELSE LET j == MapGet(old, new.c[i - 1]) IN Merge(tt, e.el, IF j = 0 THEN Zero(tt, e.el) ELSE old.c[2 * j], new.c[i])])
    [] OTHER -> new

\* -------------------------------------------------------------- machine
VARIABLES ty, v, d, s, u
vars == <<ty, v, d, s, u>>

Init == \E x \in Trees :
  /\ ty = Flat(<<>>, x)
  /\ v \in Vals(ty, Len(ty))
  /\ d \in Vals(ty, Len(ty))
  /\ IF Gen THEN s = <<>> /\ u = [h |-> <<>>, todo |-> <<>>]
            /\ PrintT("GEN " \o ToJson([ty |-> ty, v |-> v, d |-> d]))
     ELSE /\ s \in MInit(ty, Len(ty), v)
          /\ u = Run(ty, UInit(<<[t |-> Len(ty), v |-> d]>>, Len(ty)))

\* What a reader delivers for a writer's call.
Deliver(ev) ==
  CASE ev.c = "WFieldBegin" -> [c |-> "RFieldBegin", t |-> ev.t, id |-> ev.id, e |-> 0]
    [] ev.c = "WMapBegin" -> [c |-> "RMapBegin", k |-> ev.k, v |-> ev.v, s |-> ev.s, e |-> 0]
    [] ev.c \in {"WSetBegin", "WListBegin"} -> [c |-> IF ev.c = "WSetBegin" THEN "RSetBegin" ELSE "RListBegin", t |-> ev.t, s |-> ev.s, e |-> 0]
    [] ev.c \in {"WStructBegin", "WFieldEnd", "WStructEnd", "WMapEnd", "WSetEnd", "WListEnd"} ->
         [c |-> CASE ev.c = "WStructBegin" -> "RStructBegin" [] ev.c = "WFieldEnd" -> "RFieldEnd" [] ev.c = "WStructEnd" -> "RStructEnd"
                  [] ev.c = "WMapEnd" -> "RMapEnd" [] ev.c = "WSetEnd" -> "RSetEnd" [] ev.c = "WListEnd" -> "RListEnd", e |-> 0]
    [] OTHER -> [c |-> CASE ev.c = "WBool" -> "RBool" [] ev.c = "WI16" -> "RI16" [] ev.c = "WString" -> "RString" [] ev.c = "WBytes" -> "RBytes",
                 v |-> ev.v, e |-> 0]
StopField == [c |-> "RFieldBegin", t |-> TSTOP, id |-> 0, e |-> 0]

\* The end of a struct is announced by a stop field.
Next ==
  /\ s # <<>>
  /\ LET ev == Head(s).ev
         u1 == IF ev.c = "WStructEnd" THEN UStep(ty, u, StopField) ELSE u IN
     /\ s' \in Settle(ty, Tail(s))
     /\ u' = IF u1 = NoState THEN NoState ELSE UStep(ty, u1, Deliver(ev))
     /\ UNCHANGED <<ty, v, d>>
Spec == Init /\ [][Next]_vars

Final(h) == Canon(ty, h, 0, Len(ty), h[1].v)
Plainly(x) == Canon(ty, <<>>, 0, Len(ty), x)

Agree == u # NoState
Done  == s = <<>> /\ ~Gen => /\ u.todo = <<>>
                             /\ Final(u.h) = Plainly(Merge(ty, Len(ty), d, v))
                             /\ (d = Zero(ty, Len(ty)) => Final(u.h) = Plainly(Rt(ty, Len(ty), v)))
Sane  == Plainly(Rt(ty, Len(ty), v)) = Plainly(Merge(ty, Len(ty), Zero(ty, Len(ty)), v))
=============================================================================
