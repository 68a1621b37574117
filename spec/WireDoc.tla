------------------------------ MODULE WireDoc ------------------------------
(* All well-formed sequences of writer calls within bounds, as a pushdown  *)
(* machine that writes them with WireEnc, reads them back with WireDec,    *)
(* and states what every protocol promises about the pair.  The behaviours *)
(* are also printed, to be replayed on the real writers and readers.       *)
EXTENDS WireEnc, WireDec, TLC, Json, IOUtils

CONSTANTS Protos,      \* protocols
          Depth,       \* nesting of values
          MaxFields,   \* per struct
          Ids,         \* field IDs
          FieldTs,     \* types of fields at the outermost level
          DeepTs,      \* types of values further inside
          Sizes,       \* of containers
          Rich,        \* many values per scalar type, or one
          Messages,    \* wrap the value in messages
          Roots,       \* types of the outermost value
          Dump        \* print complete documents

IdsSmall == {-1, 1, 2, 17}
IdsWide  == {-32768, -1, 0, 1, 15, 16, 17, 32767}
AllTs    == ValueTypes
NoTs     == {}
DeepFew  == {TBOOL, TSTRUCT}
IdsTwo   == {1, 17}
NestTs   == {TBOOL, TI16, TSTRUCT, TLIST, TMAP}
FewTs    == {TBOOL, TI16, TSTRING, TSTRUCT}
ScalarTs == {TBOOL, TBYTE, TDOUBLE, TI16, TI32, TI64, TSTRING, TUUID}
StructOnly == {TSTRUCT}
AllProtos == Protocols
CompactOnly == {"compact"}
BinaryOnly == {"binary", "nonstrict"}

VARIABLES w,      \* state of the writer
          bytes,  \* what it produced
          calls,  \* the calls made
          todo    \* what has to follow
vars == <<w, bytes, calls, todo>>

\* ------------------------------------------------------------- the values
Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Words(n) ==
  IF ~Rich THEN {[i \in 1..n |-> IF i = n THEN 5 ELSE 0]}
  ELSE {[i \in 1..n |-> 0], [i \in 1..n |-> 255],
        [i \in 1..n |-> IF i = 1 THEN 128 ELSE 0], [i \in 1..n |-> IF i = 1 THEN 127 ELSE 255],
        [i \in 1..n |-> IF i = n THEN 63 ELSE 0], [i \in 1..n |-> IF i = n THEN 64 ELSE 0],
        [i \in 1..n |-> IF i = n THEN 191 ELSE 255], [i \in 1..n |-> IF i = n THEN 192 ELSE 255],
        [i \in 1..n |-> 16 * i + 3]}
Strings == IF Rich THEN {<<>>, <<65>>, <<0, 255, 128>>, [i \in 1..130 |-> i]} ELSE {<<65>>}
Scalar(t) ==
  CASE t = TBOOL   -> {[c |-> "WBool", v |-> b] : b \in {0, 1}}
    [] t = TBYTE   -> {[c |-> "WByte", v |-> b] : b \in IF Rich THEN {0, 1, 127, 128, 255} ELSE {9}}
    [] t = TDOUBLE -> {[c |-> "WDouble", v |-> x] : x \in Words(8)}
    [] t = TI16    -> {[c |-> "WI16", v |-> x] : x \in Words(2)}
    [] t = TI32    -> {[c |-> "WI32", v |-> x] : x \in Words(4)}
    [] t = TI64    -> {[c |-> "WI64", v |-> x] : x \in Words(8)}
    [] t = TSTRING -> {[c |-> k, v |-> x] : k \in IF Rich THEN {"WString", "WBytes"} ELSE {"WString"}, x \in Strings}
    [] t = TUUID   -> {[c |-> "WUUID", v |-> [i \in 1..16 |-> 15 * i]]}

MsgHeaders == {[c |-> "WMsgBegin", n |-> n, t |-> t, id |-> id] :
                 n \in {<<>>, <<102, 0, 200>>}, t \in MsgTypes,
                 id \in {<<0, 0, 0, 0>>, <<0, 0, 0, 200>>, <<255, 255, 255, 255>>, <<128, 0, 0, 0>>, <<127, 255, 255, 255>>}}

\* ------------------------------------------------------- pushdown machine
\* Obligations: a value of type t at nesting d, the fields of a struct, or
\* an end call.
Val(t, d)    == [o |-> "val", t |-> t, d |-> d]
Fields(n, d) == [o |-> "fields", n |-> n, d |-> d]
End(c)       == [o |-> "end", c |-> c]
RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN <<>> ELSE s \o Times(n - 1, s)

Do(c, next) ==
  LET s == WStep(w, c) IN
  /\ Assert(s.s = "ok", <<"well-formed call refused", c>>)
  /\ w' = s.w /\ bytes' = bytes \o s.out /\ calls' = Append(calls, c) /\ todo' = next

InnerTs(d) == IF d <= 1 THEN DeepTs \cap ScalarTs ELSE DeepTs
Rest == Tail(todo)

ValStep ==
  /\ todo # <<>> /\ Head(todo).o = "val"
  /\ LET t == Head(todo).t
         d == Head(todo).d IN
     CASE t \in ScalarTs -> \E c \in Scalar(t) : Do(c, Rest)
       [] t = TSTRUCT -> Do([c |-> "WStructBegin"], <<Fields(MaxFields, d)>> \o Rest)
       [] t = TMAP ->
            \E s \in Sizes : \E k, v \in InnerTs(d) \cup (IF s = 0 THEN {TSTOP} ELSE {}) :
              Do([c |-> "WMapBegin", k |-> k, v |-> v, s |-> Nat8(s)],
                 Times(s, <<Val(k, d - 1), Val(v, d - 1)>>) \o <<End("WMapEnd")>> \o Rest)
       [] t = TSET ->
            \E s \in Sizes : \E e \in InnerTs(d) \cup (IF s = 0 THEN {TSTOP} ELSE {}) :
              Do([c |-> "WSetBegin", t |-> e, s |-> Nat8(s)], Times(s, <<Val(e, d - 1)>>) \o <<End("WSetEnd")>> \o Rest)
       [] t = TLIST ->
            \E s \in Sizes : \E e \in InnerTs(d) \cup (IF s = 0 THEN {TSTOP} ELSE {}) :
              Do([c |-> "WListBegin", t |-> e, s |-> Nat8(s)], Times(s, <<Val(e, d - 1)>>) \o <<End("WListEnd")>> \o Rest)

FieldStep ==
  /\ todo # <<>> /\ Head(todo).o = "fields"
  /\ LET d == Head(todo).d
         n == Head(todo).n IN
     \/ Do([c |-> "WStructEnd"], Rest)
     \/ n > 0 /\ \E t \in (IF d = Depth THEN FieldTs ELSE InnerTs(d)), id \in Ids :
          Do([c |-> "WFieldBegin", t |-> t, id |-> id],
             <<Val(t, d - 1), End("WFieldEnd"), Fields(n - 1, d)>> \o Rest)

EndStep ==
  /\ todo # <<>> /\ Head(todo).o = "end"
  /\ Do([c |-> Head(todo).c], Rest)

MsgStep ==
  /\ todo # <<>> /\ Head(todo).o = "msg"
  /\ \E h \in MsgHeaders : Do(h, Rest)

Init ==
  /\ \E p \in Protos : w = WInit(p)
  /\ bytes = <<>> /\ calls = <<>>
  /\ IF Messages THEN todo = <<[o |-> "msg"], Val(TSTRUCT, Depth), End("WMsgEnd")>>
     ELSE \E t \in Roots : todo = <<Val(t, Depth)>>
Next == ValStep \/ FieldStep \/ EndStep \/ MsgStep
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
ReadName(c) ==
  LET R == [WMsgBegin |-> "RMsgBegin", WMsgEnd |-> "RMsgEnd", WStructBegin |-> "RStructBegin", WStructEnd |-> "RStructEnd",
            WFieldBegin |-> "RFieldBegin", WFieldEnd |-> "RFieldEnd", WMapBegin |-> "RMapBegin", WMapEnd |-> "RMapEnd",
            WSetBegin |-> "RSetBegin", WSetEnd |-> "RSetEnd", WListBegin |-> "RListBegin", WListEnd |-> "RListEnd",
            WBool |-> "RBool", WByte |-> "RByte", WI16 |-> "RI16", WI32 |-> "RI32", WI64 |-> "RI64",
            WDouble |-> "RDouble", WUUID |-> "RUUID", WString |-> "RString", WBytes |-> "RBytes"]
  IN R[c]

\* The reading calls for the calls made; the stop field is an extra one.
RECURSIVE Reads(_)
Reads(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET c == Head(cs) IN
    IF c.c = "WStructEnd" THEN <<[c |-> "RFieldBegin", e |-> 0, t |-> TSTOP], [c |-> "RStructEnd", e |-> 0]>> \o Reads(Tail(cs))
    ELSE <<[f \in (DOMAIN c) \cup {"e"} |-> IF f = "e" THEN 0 ELSE IF f = "c" THEN ReadName(c.c) ELSE c[f]]>> \o Reads(Tail(cs))

\* Empty maps lose their types in the compact protocol.
Same(c, x) == \A f \in DOMAIN x : x[f] = c[f]

RECURSIVE ReadBack(_, _, _, _)
\* The status of reading the calls rs from src, and where it ends.
ReadBack(r, src, pos, rs) ==
  IF rs = <<>> THEN [s |-> "ok", p |-> pos]
  ELSE LET s == RStep(r, src, pos, Head(rs)) IN
    IF s.s # "ok" THEN [s |-> s.s, p |-> pos]
    ELSE IF ~Same(Head(rs), s.x) THEN [s |-> "differs", p |-> pos]
    ELSE ReadBack(s.r, src, s.p, Tail(rs))

Complete == todo = <<>>

RoundTrip == Complete =>
  LET rs == Reads(calls) IN
  /\ ReadBack(RInit(w.p), bytes, 0, rs) = [s |-> "ok", p |-> Len(bytes)]
  /\ w.p = "binary" => ReadBack(RInit("nonstrict"), bytes, 0, rs) = [s |-> "ok", p |-> Len(bytes)]

\* A document cut short is noticed, and only when the end is reached.
PrefixFree == Complete =>
  LET rs == Reads(calls) IN
  \A n \in 0..(Len(bytes) - 1) : ReadBack(RInit(w.p), SubSeq(bytes, 1, n), 0, rs).s = "short"

\* Skipping a document ends where reading it ends, whatever follows.
SkipExact == Complete /\ ~Messages =>
  LET t == CASE calls[1].c = "WStructBegin" -> TSTRUCT [] calls[1].c = "WMapBegin" -> TMAP
             [] calls[1].c = "WSetBegin" -> TSET [] calls[1].c = "WListBegin" -> TLIST
             [] calls[1].c = "WBool" -> TBOOL [] calls[1].c = "WByte" -> TBYTE [] calls[1].c = "WI16" -> TI16
             [] calls[1].c = "WI32" -> TI32 [] calls[1].c = "WI64" -> TI64 [] calls[1].c = "WDouble" -> TDOUBLE
             [] calls[1].c = "WUUID" -> TUUID [] OTHER -> TSTRING
      s == SkipVal(RInit(w.p), bytes \o <<17, 34>>, 0, t)
  IN s.s = "ok" /\ s.p = Len(bytes) /\ s.r = RInit(w.p)

\* A complete document leaves the writer as it was.
Balanced == Complete => w = WInit(w.p)

Printed == Complete /\ Dump => PrintT("GEN " \o ToJson([p |-> w.p, calls |-> calls, bytes |-> bytes]))
=============================================================================
