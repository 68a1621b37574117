------------------------------- MODULE Arshal -------------------------------
(* What Marshal and Unmarshal do with Go types and values: two machines    *)
(* whose transitions are the calls made on a writer or reader.             *)
(*                                                                         *)
(* A table ty of Go types: records [k, el, ky, fs, nm, zm, zc], where k is *)
(* the kind, el and ky the element and key type, fs the struct's fields    *)
(* [id, nm, t, rq, ig] in order of declaration (ig: not a Thrift field),   *)
(* nm the type's name, and zm what its IsZero method does ("" none).       *)
(*                                                                         *)
(* A value is [n, b, c, p]: n is 1 for nil; b the bits or bytes of a       *)
(* scalar; c the fields, elements, alternating keys and values, or the     *)
(* target of a pointer; p the label of a pointer's target in a heap.       *)
EXTENDS ThriftBytes, WireTypes, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}

Scalar(b)   == [n |-> 0, b |-> b, c |-> <<>>, p |-> 0]
Comp(c)     == [n |-> 0, b |-> <<>>, c |-> c, p |-> 0]
NilV        == [n |-> 1, b |-> <<>>, c |-> <<>>, p |-> 0]
Label(p)    == [n |-> 0, b |-> <<>>, c |-> <<>>, p |-> p]

Kinds == {"bool", "byte", "i16", "i32", "i64", "double", "float", "string", "bytes", "uuid",
          "struct", "map", "set", "list", "ptr", "bad", "opaque"}
ScalarKinds == {"bool", "byte", "i16", "i32", "i64", "double", "float", "string", "bytes", "uuid"}

Width(k) == CASE k \in {"bool", "byte"} -> 1 [] k = "i16" -> 2 [] k = "i32" -> 4 [] k \in {"i64", "double", "float"} -> 8
              [] k = "uuid" -> 16

Zeros(n) == [i \in 1..n |-> 0]

\* The Thrift type of a Go type, TSTOP if it has none.
RECURSIVE WT(_, _)
WT(ty, t) ==
  LET k == ty[t].k IN
  CASE k = "bool" -> TBOOL [] k = "byte" -> TBYTE [] k = "i16" -> TI16 [] k = "i32" -> TI32 [] k = "i64" -> TI64
    [] k \in {"double", "float"} -> TDOUBLE [] k \in {"string", "bytes"} -> TSTRING [] k = "uuid" -> TUUID
    [] k = "struct" -> TSTRUCT [] k = "map" -> TMAP [] k = "set" -> TSET [] k = "list" -> TLIST
    [] k = "ptr" -> WT(ty, ty[t].el)
    [] OTHER -> TSTOP

RECURSIVE Zero(_, _)
Zero(ty, t) ==
  LET d == ty[t] IN
  CASE d.k \in {"string", "opaque"} -> Scalar(<<>>)
    [] d.k \in {"bytes", "map", "set", "list", "ptr", "bad"} -> NilV
    [] d.k = "struct" -> Comp([i \in 1..Len(d.fs) |-> Zero(ty, d.fs[i].t)])
    [] OTHER -> Scalar(Zeros(Width(d.k)))

\* Floating point values, given by their bits.
NaN32 == <<127, 248, 0, 0, 0, 0, 0, 0>>
IsNaN(b) == (b[1] \in {127, 255}) /\ b[2] >= 240 /\ (b[2] > 240 \/ \E i \in 3..8 : b[i] # 0)
FZero(b) == b[1] \in {0, 128} /\ \A i \in 2..8 : b[i] = 0

\* ------------------------------------------------- is a field left out?
RECURSIVE GoZero(_, _, _)
GoZero(ty, t, v) ==
  LET d == ty[t] IN
  CASE d.k \in {"bytes", "map", "set", "list", "ptr", "bad"} -> v.n = 1
    [] d.k = "struct" -> \A i \in 1..Len(d.fs) : GoZero(ty, d.fs[i].t, v.c[i])
    [] d.k \in {"string", "opaque"} -> v.b = <<>>
    [] d.k \in {"double", "float"} -> FZero(v.b)   \* of either sign
    [] OTHER -> \A i \in 1..Len(v.b) : v.b[i] = 0

Method(d, v) ==
  CASE d.zm = "never"  -> FALSE
    [] d.zm = "always" -> TRUE
    [] d.zm = "eq"     -> v.b = d.zc
    [] d.zm = "empty"  -> v.c = <<>>
    [] d.zm = "first"  -> \A i \in 1..Len(v.c[1].b) : v.c[1].b[i] = 0

\* v is a field's value; a method of the target serves the pointer, too.
IsZero(ty, t, v) ==
  LET d == ty[t] IN
  IF d.zm # "" THEN Method(d, v)
  ELSE IF d.k = "ptr" /\ ty[d.el].zm # "" THEN v.n = 1 \/ Method(ty[d.el], v.c[1])
  ELSE GoZero(ty, t, v)

\* ---------------------------------------------------------------- Marshal
\* A stack of things to do: calls, values, the remaining fields of a
\* struct, or the remaining entries of a map, in any order.
DoVal(t, v)    == [i |-> "val", t |-> t, v |-> v]
DoCall(ev, t)  == [i |-> "call", ev |-> ev, t |-> t]            \* on behalf of a value of type t
DoFields(t, v, left) == [i |-> "fields", t |-> t, v |-> v, left |-> left]
DoEntries(t, v, left) == [i |-> "entries", t |-> t, v |-> v, left |-> left]
DoEls(t, v, n) == [i |-> "els", t |-> t, v |-> v, left |-> {n}]
\* An error about one of the Go types gs and one of the Thrift types ws.
DoErr(gs, ws)  == [i |-> "err", gs |-> gs, ws |-> ws]
Failed(gs, ws) == [i |-> "failed", gs |-> gs, ws |-> ws]

\* A type and what it points to.
RECURSIVE Chain(_, _)
Chain(ty, t) == IF ty[t].k = "ptr" THEN {t} \cup Chain(ty, ty[t].el) ELSE {t}

WName(k) == CASE k = "bool" -> "WBool" [] k = "byte" -> "WByte" [] k = "i16" -> "WI16" [] k = "i32" -> "WI32"
              [] k = "i64" -> "WI64" [] k \in {"double", "float"} -> "WDouble" [] k = "string" -> "WString"
              [] k = "bytes" -> "WBytes" [] k = "uuid" -> "WUUID"

\* The Thrift fields of a struct type, as indices.
Fields(ty, t) == {i \in 1..Len(ty[t].fs) : ty[t].fs[i].ig = 0}
MinField(ty, t, S) == CHOOSE i \in S : \A j \in S : ty[t].fs[i].id <= ty[t].fs[j].id

Bare(n) == [c |-> n]

Expand(ty, x) ==                       \* of one item: a set of sequences
  CASE x.i = "val" ->
    LET d == ty[x.t]
        v == x.v IN
    (CASE d.k \in ScalarKinds -> {<<DoCall([c |-> WName(d.k), v |-> v.b], x.t)>>}
      [] d.k = "ptr" -> {<<DoVal(d.el, IF v.n = 1 THEN Zero(ty, d.el) ELSE v.c[1])>>}
      [] d.k = "struct" ->
           {<<DoCall([c |-> "WStructBegin", n |-> d.nm], x.t), DoFields(x.t, v, Fields(ty, x.t)), DoCall(Bare("WStructEnd"), x.t)>>}
      [] d.k = "map" ->
           IF TSTOP \in {WT(ty, d.ky), WT(ty, d.el)} THEN {<<DoErr({x.t} \cup Chain(ty, d.ky) \cup Chain(ty, d.el), {TMAP, 0})>>}
           ELSE {<<DoCall([c |-> "WMapBegin", k |-> WT(ty, d.ky), v |-> WT(ty, d.el), s |-> Len(v.c) \div 2], x.t),
                   DoEntries(x.t, v, 1..(Len(v.c) \div 2)), DoCall(Bare("WMapEnd"), x.t)>>}
      [] d.k \in {"set", "list"} ->
           IF WT(ty, d.el) = TSTOP THEN {<<DoErr({x.t} \cup Chain(ty, d.el), {WT(ty, x.t), 0})>>}
           ELSE {<<DoCall([c |-> IF d.k = "set" THEN "WSetBegin" ELSE "WListBegin", t |-> WT(ty, d.el), s |-> Len(v.c)], x.t),
                   DoEls(x.t, v, 1), DoCall(Bare(IF d.k = "set" THEN "WSetEnd" ELSE "WListEnd"), x.t)>>}
      [] OTHER -> {<<DoErr({x.t}, {0})>>})
  [] x.i = "fields" ->
    IF x.left = {} THEN {<<>>}
    ELSE LET j == MinField(ty, x.t, x.left)
             f == ty[x.t].fs[j]
             rest == DoFields(x.t, x.v, x.left \ {j}) IN
      IF WT(ty, f.t) = TSTOP THEN {<<DoErr(Chain(ty, f.t), {0})>>}
      ELSE IF f.rq = 0 /\ IsZero(ty, f.t, x.v.c[j]) THEN {<<rest>>}
      ELSE {<<DoCall([c |-> "WFieldBegin", n |-> f.nm, t |-> WT(ty, f.t), id |-> f.id], x.t),
              DoVal(f.t, x.v.c[j]), DoCall(Bare("WFieldEnd"), x.t), rest>>}
  [] x.i = "entries" ->
    IF x.left = {} THEN {<<>>}
    ELSE {<<DoVal(ty[x.t].ky, x.v.c[2 * j - 1]), DoVal(ty[x.t].el, x.v.c[2 * j]), DoEntries(x.t, x.v, x.left \ {j})>> :
            j \in x.left}
  [] x.i = "els" ->
    LET n == CHOOSE n \in x.left : TRUE IN
    IF n > Len(x.v.c) THEN {<<>>}
    ELSE {<<DoVal(ty[x.t].el, x.v.c[n]), DoEls(x.t, x.v, n + 1)>>}

\* All ways to get to a stack whose head is a call or an error.
RECURSIVE Settle(_, _)
Settle(ty, todo) ==
  IF todo = <<>> \/ Head(todo).i \in {"call", "err"} THEN {todo}
  ELSE UNION {Settle(ty, s \o Tail(todo)) : s \in Expand(ty, Head(todo))}

MInit(ty, t, v) == Settle(ty, <<DoVal(t, v)>>)

\* The states after the call ev (a set; empty if it is not allowed).
SameCall(a, ev) == a.c = ev.c /\ \A f \in DOMAIN a : a[f] = ev[f]
MStep(ty, S, ev) ==
  UNION {IF s # <<>> /\ Head(s).i = "call" /\ SameCall(Head(s).ev, ev)
         THEN IF ev.e = 0 THEN Settle(ty, Tail(s)) ELSE {<<Failed({Head(s).t}, {WT(ty, Head(s).t)})>>}
         ELSE {} : s \in S}

\* May Marshal return now, with error code e?
MDone(S, e, fault, sem) ==
  \E s \in S : IF s = <<>> THEN e = 0
               ELSE IF Head(s).i = "err" THEN e # 0 /\ sem = 1
               ELSE Head(s).i = "failed" /\ e = fault

\* -------------------------------------------------------------- Unmarshal
\* The heap h is a sequence of [t, v]; a location is an object and a path.
RECURSIVE GetP(_, _), PutP(_, _, _)
GetP(v, p) == IF p = <<>> THEN v ELSE GetP(v.c[Head(p)], Tail(p))
PutP(v, p, x) == IF p = <<>> THEN x ELSE [v EXCEPT !.c[Head(p)] = PutP(@, Tail(p), x)]
Get(u, o, p) == GetP(u.h[o].v, p)
Put(u, o, p, x) == [u EXCEPT !.h[o].v = PutP(@, p, x)]
Alloc(u, t, v) == [u EXCEPT !.h = Append(@, [t |-> t, v |-> v])]   \* the new object is the last

Dec(o, p, t, w) == [i |-> "dec", o |-> o, p |-> p, t |-> t, w |-> w]
Ret(n, t)       == [i |-> "ret", n |-> n, t |-> t]      \* t is 0 for what is skipped
SkipIt(w)       == [i |-> "skip", w |-> w]

RName(k) == CASE k = "bool" -> "RBool" [] k = "byte" -> "RByte" [] k = "i16" -> "RI16" [] k = "i32" -> "RI32"
              [] k = "i64" -> "RI64" [] k \in {"double", "float"} -> "RDouble" [] k = "string" -> "RString"
              [] k = "bytes" -> "RBytes" [] k = "uuid" -> "RUUID"

UInit(h, t) == [h |-> h, todo |-> <<Dec(1, <<>>, t, -1)>>]

Push(u, s) == [u EXCEPT !.todo = s \o Tail(@)]

\* Go's == on map keys.
RECURSIVE EqKey(_, _, _, _)
EqKey(ty, t, a, b) ==
  LET d == ty[t] IN
  CASE d.k \in {"double", "float"} -> ~IsNaN(a.b) /\ (a.b = b.b \/ (FZero(a.b) /\ FZero(b.b)))
    [] d.k = "struct" -> \A i \in 1..Len(d.fs) : EqKey(ty, d.fs[i].t, a.c[i], b.c[i])
    [] d.k = "ptr" -> (a.n = 1 /\ b.n = 1) \/ (a.p # 0 /\ a.p = b.p)
    [] OTHER -> a = b
FindKey(ty, t, m, key) == LET S == {j \in 1..(Len(m.c) \div 2) : EqKey(ty, t, m.c[2 * j - 1], key)} IN
                          IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

\* Silent steps, until a call is due.
RECURSIVE Run(_, _)
Run(ty, u) ==
  IF u.todo = <<>> THEN u
  ELSE LET x == Head(u.todo) IN
  CASE x.i = "dec" ->
         LET d == ty[x.t]
             w == IF x.w = -1 THEN WT(ty, x.t) ELSE x.w IN
        (CASE d.k = "ptr" ->
                LET v == Get(u, x.o, x.p) IN
                IF v.n = 1
                THEN LET a == Alloc(u, d.el, Zero(ty, d.el))
                         l == Len(a.h) IN
                     Run(ty, Push(Put(a, x.o, x.p, Label(l)), <<Dec(l, <<>>, d.el, w)>>))
                ELSE IF v.p = 0 THEN Run(ty, Push(u, <<Dec(x.o, Append(x.p, 1), d.el, w)>>))
                ELSE Run(ty, Push(u, <<Dec(v.p, <<>>, d.el, w)>>))
           [] d.k \in {"bad", "opaque"} \/ w # WT(ty, x.t) -> Push(u, <<DoErr({x.t}, {w})>>)
           [] d.k \in ScalarKinds -> Push(u, <<[i |-> "scalar", o |-> x.o, p |-> x.p, t |-> x.t]>>)
           [] d.k = "struct" -> Push(u, <<Ret("RStructBegin", x.t), [i |-> "field", o |-> x.o, p |-> x.p, t |-> x.t]>>)
           [] d.k = "map" -> Push(u, <<[i |-> "map", o |-> x.o, p |-> x.p, t |-> x.t]>>)
           [] d.k \in {"set", "list"} -> Push(u, <<[i |-> "seq", o |-> x.o, p |-> x.p, t |-> x.t]>>))
    [] x.i = "entry" ->
         IF x.left = 0 THEN Run(ty, Push(u, <<Ret("RMapEnd", x.t)>>))
         ELSE LET d == ty[x.t]
                  a == Alloc(u, d.ky, Zero(ty, d.ky))
                  ko == Len(a.h) IN
              Run(ty, Push(a, <<Dec(ko, <<>>, d.ky, x.kw), [x EXCEPT !.i = "value", !.ko = ko]>>))
    [] x.i = "value" ->
         LET d == ty[x.t]
             m == Get(u, x.o, x.p)
             j == FindKey(ty, d.ky, m, u.h[x.ko].v)
             a == Alloc(u, d.el, IF j = 0 THEN Zero(ty, d.el) ELSE m.c[2 * j])
             vo == Len(a.h) IN
         Run(ty, Push(a, <<Dec(vo, <<>>, d.el, x.vw), [x EXCEPT !.i = "store", !.vo = vo]>>))
    [] x.i = "store" ->
         LET m == Get(u, x.o, x.p)
             key == u.h[x.ko].v
             val == u.h[x.vo].v
             j == FindKey(ty, ty[x.t].ky, m, key)
             m2 == IF j = 0 THEN [m EXCEPT !.c = @ \o <<key, val>>] ELSE [m EXCEPT !.c[2 * j - 1] = key, !.c[2 * j] = val] IN
         Run(ty, Push(Put(u, x.o, x.p, m2), <<[x EXCEPT !.i = "entry", !.left = @ - 1]>>))
    [] x.i = "els" ->
         LET d == ty[x.t] IN
         IF x.left = 0 THEN Run(ty, Push(u, <<Ret(IF d.k = "set" THEN "RSetEnd" ELSE "RListEnd", x.t)>>))
         ELSE LET v == Get(u, x.o, x.p)
                  u2 == Put(u, x.o, x.p, [v EXCEPT !.c = Append(@, Zero(ty, d.el))]) IN
              Run(ty, Push(u2, <<Dec(x.o, Append(x.p, Len(v.c) + 1), d.el, x.kw), [x EXCEPT !.left = @ - 1]>>))
    [] x.i = "skip" ->
        (CASE x.w = TSTRUCT -> Push(u, <<Ret("RStructBegin", 0), [i |-> "skipf"]>>)
           [] x.w \in ValueTypes -> u
           [] OTHER -> Push(u, <<[i |-> "err2", w |-> x.w]>>))
    [] x.i = "skipn" ->
         IF x.left = 0 THEN Run(ty, Push(u, <<Ret(x.n, 0)>>))
         ELSE Run(ty, Push(u, [j \in 1..Len(x.ws) |-> SkipIt(x.ws[j])] \o <<[x EXCEPT !.left = @ - 1]>>))
    [] OTHER -> u

SkipCalls(w) ==
  CASE w = TBOOL -> {"RBool"} [] w = TBYTE -> {"RByte"} [] w = TDOUBLE -> {"RDouble"} [] w = TI16 -> {"RI16"} [] w = TI32 -> {"RI32"}
    [] w = TI64 -> {"RI64"} [] w = TSTRING -> {"RSkipString", "RString", "RBytes"} [] w = TUUID -> {"RSkipUUID", "RUUID"}

\* The float32 nearest to a double (ties to even), as the bits of a double
\* again.
BitsOf(b) == [i \in 1..64 |-> (b[((i - 1) \div 8) + 1] \div 2^(7 - ((i - 1) % 8))) % 2]
BytesOf(x) == [k \in 1..8 |-> 128 * x[8 * k - 7] + 64 * x[8 * k - 6] + 32 * x[8 * k - 5] + 16 * x[8 * k - 4]
                              + 8 * x[8 * k - 3] + 4 * x[8 * k - 2] + 2 * x[8 * k - 1] + x[8 * k]]
RECURSIVE Incr(_)
Incr(x) == IF x = <<>> THEN <<1>>       \* of a string of bits; longer by one on overflow
           ELSE IF x[Len(x)] = 0 THEN [x EXCEPT ![Len(x)] = 1]
           ELSE Append(Incr(SubSeq(x, 1, Len(x) - 1)), 0)
RECURSIVE Ten(_, _)
Ten(n, w) == IF w = 0 THEN <<>> ELSE Append(Ten(n \div 2, w - 1), n % 2)
ToF32(b) ==
  LET x    == BitsOf(b)
      sg   == x[1]
      e    == (b[1] % 128) * 16 + (b[2] \div 16)
      E    == e - 1023
      sig  == <<1>> \o SubSeq(x, 13, 64)              \* 53 bits
      kept == IF E >= -126 THEN 24 ELSE E + 150        \* of them
      Inf  == BytesOf(<<sg>> \o Ten(2047, 11) \o [i \in 1..52 |-> 0])
      Make(m, ex) ==                                   \* m starts with 1
        IF ex > 127 THEN Inf
        ELSE BytesOf(<<sg>> \o Ten(ex + 1023, 11) \o [i \in 1..52 |-> IF i + 1 <= Len(m) THEN m[i + 1] ELSE 0])
      Zero0 == BytesOf(<<sg>> \o [i \in 1..63 |-> 0])
  IN CASE e = 2047 -> b
       [] e # 2047 /\ (e = 0 \/ kept < 0) -> Zero0
       [] e \notin {0, 2047} /\ kept >= 0 ->
            LET top == SubSeq(sig, 1, kept)
                up  == /\ sig[kept + 1] = 1
                       /\ \/ \E i \in (kept + 2)..53 : sig[i] = 1
                          \/ kept > 0 /\ sig[kept] = 1
                m   == IF up THEN Incr(top) ELSE top IN
            IF m = <<>> THEN Zero0 ELSE Make(m, E + (Len(m) - kept))

NoState == [h |-> <<>>, todo |-> <<[i |-> "reject"]>>]
FieldOf(ty, t, id) == LET S == {j \in Fields(ty, t) : ty[t].fs[j].id = id} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Left(s) == IF s < 0 THEN 0 ELSE s

\* The state after the call ev, given that it succeeds.
Take(ty, u, ev) ==
  LET x == Head(u.todo) IN
  CASE x.i = "ret" -> IF ev.c = x.n THEN Push(u, <<>>) ELSE NoState
    [] x.i = "scalar" ->
         IF ev.c = RName(ty[x.t].k) \/ {ev.c, RName(ty[x.t].k)} = {"RString", "RBytes"}
         THEN Push(Put(u, x.o, x.p, Scalar(IF ty[x.t].k = "float" /\ ev.c = "RDouble" THEN ToF32(ev.v) ELSE ev.v)), <<>>) ELSE NoState
    [] x.i = "field" ->
         IF ev.c # "RFieldBegin" THEN NoState
         ELSE IF ev.t = TSTOP THEN Push(u, <<Ret("RStructEnd", x.t)>>)
         ELSE LET j == FieldOf(ty, x.t, ev.id) IN
              Push(u, <<IF j = 0 THEN SkipIt(ev.t) ELSE Dec(x.o, Append(x.p, j), ty[x.t].fs[j].t, ev.t), Ret("RFieldEnd", x.t), x>>)
    [] x.i = "map" ->
         IF ev.c # "RMapBegin" THEN NoState
         ELSE LET v == Get(u, x.o, x.p)
                  u2 == IF ev.s > 0 THEN Put(u, x.o, x.p, [v EXCEPT !.n = 0]) ELSE u IN
              Push(u2, <<[i |-> "entry", o |-> x.o, p |-> x.p, t |-> x.t, left |-> Left(ev.s), kw |-> ev.k, vw |-> ev.v,
                          ko |-> 0, vo |-> 0]>>)
    [] x.i = "seq" ->
         IF ev.c # (IF ty[x.t].k = "set" THEN "RSetBegin" ELSE "RListBegin") THEN NoState
         ELSE LET v == Get(u, x.o, x.p)
                  u2 == Put(u, x.o, x.p, [v EXCEPT !.c = <<>>, !.n = IF ev.s > 0 THEN 0 ELSE @]) IN
              Push(u2, <<[i |-> "els", o |-> x.o, p |-> x.p, t |-> x.t, left |-> Left(ev.s), kw |-> ev.t]>>)
    [] x.i = "skip" ->
        (CASE x.w = TMAP -> IF ev.c = "RMapBegin"
                            THEN Push(u, <<[i |-> "skipn", ws |-> <<ev.k, ev.v>>, left |-> Left(ev.s), n |-> "RMapEnd"]>>) ELSE NoState
           [] x.w = TSET -> IF ev.c = "RSetBegin"
                            THEN Push(u, <<[i |-> "skipn", ws |-> <<ev.t>>, left |-> Left(ev.s), n |-> "RSetEnd"]>>) ELSE NoState
           [] x.w = TLIST -> IF ev.c = "RListBegin"
                            THEN Push(u, <<[i |-> "skipn", ws |-> <<ev.t>>, left |-> Left(ev.s), n |-> "RListEnd"]>>) ELSE NoState
           [] OTHER -> IF ev.c \in SkipCalls(x.w) THEN Push(u, <<>>) ELSE NoState)
    [] x.i = "skipf" ->
         IF ev.c # "RFieldBegin" THEN NoState
         ELSE IF ev.t = TSTOP THEN Push(u, <<Ret("RStructEnd", 0)>>)
         ELSE Push(u, <<SkipIt(ev.t), Ret("RFieldEnd", 0), x>>)
    [] OTHER -> NoState

\* A failing call has to be a due one, too.
Plain(ev) == CASE ev.c = "RFieldBegin" -> [c |-> ev.c, t |-> TSTOP]
               [] ev.c = "RMapBegin" -> [c |-> ev.c, s |-> 0, k |-> 0, v |-> 0]
               [] ev.c \in {"RSetBegin", "RListBegin"} -> [c |-> ev.c, s |-> 0, t |-> 0]
               [] OTHER -> [c |-> ev.c, v |-> Zeros(8)]
UStep(ty, u, ev) ==
  IF u.todo = <<>> THEN NoState
  ELSE IF ev.e # 0 THEN IF Take(ty, u, Plain(ev)) = NoState THEN NoState ELSE [u EXCEPT !.todo = <<LET h == Head(u.todo) IN
                                   IF h.i \in {"skip", "skipf", "skipn"} \/ h.t = 0 THEN Failed({}, {}) ELSE Failed({h.t}, {WT(ty, h.t)})>>]
  ELSE LET n == Take(ty, u, ev) IN IF n = NoState THEN NoState ELSE Run(ty, n)

UDone(u, e, fault, sem) ==
  IF u.todo = <<>> THEN e = 0
  ELSE LET x == Head(u.todo) IN
       CASE x.i = "err" -> e # 0 /\ sem = 1
         [] x.i = "err2" -> e # 0
         [] x.i = "failed" -> e = fault
         [] OTHER -> FALSE

\* ----------------------------------------------------- what errors tell
\* An error is [sem, gt, wt, says, go, und, ite]: whether it is a semantic
\* error, its Go and Thrift type (0 for none), the words of its text (but
\* for the Go type and the underlying error), whether its text shows the Go
\* type and the underlying error if there are such, and the invalid Thrift
\* type it is about (-1 for none).
TName(w) == CASE w = TBOOL -> "bool" [] w = TBYTE -> "byte" [] w = TI16 -> "i16" [] w = TI32 -> "i32" [] w = TI64 -> "i64"
              [] w = TDOUBLE -> "double" [] w = TSTRING -> "string" [] w = TUUID -> "uuid" [] w = TSTRUCT -> "struct"
              [] w = TMAP -> "map" [] w = TSET -> "set" [] w = TLIST -> "list" [] OTHER -> ""
TNames == {TName(w) : w \in ValueTypes}
Telling(act, err) ==
  /\ err.sem = 1
  /\ Range(err.says) \cap {"marshal", "unmarshal"} = {act}
  /\ Range(err.says) \cap TNames = {TName(err.wt)} \ {""}
  /\ err.go = 1 /\ err.und = 1
Tells(act, x, err) ==
  CASE x.i = "err2" -> err.ite = x.w
    [] x.i = "failed" /\ x.gs = {} -> TRUE
    [] x.i \in {"err", "failed"} -> Telling(act, err) /\ err.gt \in x.gs /\ err.wt \in x.ws
    [] OTHER -> FALSE

\* ------------------------------------------------------ comparing values
\* A value up to nil and empty containers being the same, the order of map
\* entries, and the identity of targets beyond label nl (they are unfolded).
\* Bits of NaNs in a 32-bit float are not told apart.
RECURSIVE Canon(_, _, _, _, _)
Canon(ty, h, nl, t, v) ==
  LET d == ty[t] IN
  CASE d.k = "float" -> IF IsNaN(v.b) THEN <<"s", NaN32>> ELSE <<"s", v.b>>
    [] d.k \in ScalarKinds \cup {"opaque"} -> <<"s", v.b>>
    [] d.k = "struct" -> <<"c", [i \in 1..Len(d.fs) |-> Canon(ty, h, nl, d.fs[i].t, v.c[i])]>>
    [] d.k \in {"set", "list"} -> <<"c", [i \in 1..Len(v.c) |-> Canon(ty, h, nl, d.el, v.c[i])]>>
    [] d.k = "map" -> <<"m", {<<Canon(ty, h, nl, d.ky, v.c[2 * j - 1]), Canon(ty, h, nl, d.el, v.c[2 * j])>> : j \in 1..(Len(v.c) \div 2)}>>
    [] d.k = "ptr" ->
         IF v.n = 1 THEN <<"n">>
         ELSE IF v.p = 0 THEN <<"p", Canon(ty, h, nl, d.el, v.c[1])>>
         ELSE IF v.p <= nl THEN <<"l", v.p>>
         ELSE <<"p", Canon(ty, h, nl, d.el, h[v.p].v)>>
    [] OTHER -> <<"n">>

\* What a value becomes by Marshal and Unmarshal into a zero variable.
RECURSIVE Rt(_, _, _)
Rt(ty, t, v) ==
  LET d == ty[t] IN
  CASE d.k = "ptr" -> [NilV EXCEPT !.n = 0, !.c = <<Rt(ty, d.el, IF v.n = 1 THEN Zero(ty, d.el) ELSE v.c[1])>>]
    [] d.k = "struct" ->
         Comp([i \in 1..Len(d.fs) |->
                 IF d.fs[i].ig = 1 \/ (d.fs[i].rq = 0 /\ IsZero(ty, d.fs[i].t, v.c[i])) THEN Zero(ty, d.fs[i].t)
                 ELSE Rt(ty, d.fs[i].t, v.c[i])])
    [] d.k \in {"set", "list"} -> Comp([i \in 1..Len(v.c) |-> Rt(ty, d.el, v.c[i])])
    [] d.k = "map" -> Comp([i \in 1..Len(v.c) |-> Rt(ty, IF i % 2 = 1 THEN d.ky ELSE d.el, v.c[i])])
    [] OTHER -> v
=============================================================================
