------------------------------ MODULE WireDec ------------------------------
(* The reader half of the protocols as a state machine.  A state is        *)
(* [p, stk, last, bf]: the protocol, the previous field IDs of enclosing   *)
(* structs, that of the current one, and the value of the boolean field    *)
(* whose header was read (0 none, 1 true, 2 false).  RStep(r, src, pos, c) *)
(* is what the call c yields on the stream src of which pos bytes were     *)
(* consumed: the status                                                    *)
(*   "ok"     succeeds with the fields of x as (part of) its result,       *)
(*   "short"  the stream ends before the value does,                       *)
(*   "bad"    the bytes are malformed: an error,                           *)
(*   "fail"   an error of either kind,                                     *)
(*   "any"    outside the contract,                                        *)
(* the next state r and the next position p.  c is only consulted for what *)
(* the protocol leaves open.                                               *)
EXTENDS ThriftBytes, WireTypes

RInit(p) == [p |-> p, stk |-> <<>>, last |-> 0, bf |-> 0]

ROk(r, p, x)  == [s |-> "ok", r |-> r, p |-> p, x |-> x]
RFail(st, r, p) == [s |-> st, r |-> r, p |-> p, x |-> <<>>]
NoRes == [e |-> 0]

\* Element types of a container header; TSTOP for an empty one.
ElemTypes == ValueTypes \cup {TSTOP}

Have(src, pos, n) == pos + n <= Len(src)
Slice(src, pos, n) == SubSeq(src, pos + 1, pos + n)

\* n bytes as they are, mapped by F into the result field v
Fixed(r, src, pos, n, F(_)) ==
  IF Have(src, pos, n) THEN ROk(r, pos + n, [e |-> 0, v |-> F(Slice(src, pos, n))])
  ELSE RFail("short", r, pos)

Id(x) == x
First(x) == x[1]
Truth(x) == IF x[1] # 0 THEN 1 ELSE 0

\* The string whose length is the 8-byte word len, starting at pos.
StringAt(src, pos, len) ==
  IF IsNeg(len) THEN [s |-> "bad", p |-> pos, v |-> <<>>]
  ELSE IF ~IsNat31(len) THEN [s |-> "fail", p |-> pos, v |-> <<>>]
  ELSE IF ToNat(len) > Len(src) - pos THEN [s |-> "short", p |-> pos, v |-> <<>>]
  ELSE [s |-> "ok", p |-> pos + ToNat(len), v |-> Slice(src, pos, ToNat(len))]

StrRes(r, x) == IF x.s = "ok" THEN ROk(r, x.p, [e |-> 0, v |-> x.v]) ELSE RFail(x.s, r, x.p)

\* ---------------------------------------------------------------- binary
BStringAt(src, pos) ==
  IF ~Have(src, pos, 4) THEN [s |-> "short", p |-> pos, v |-> <<>>]
  ELSE StringAt(src, pos + 4, Ext8(Slice(src, pos, 4)))

BMsgBegin(r, src, pos, c) ==
  IF ~Have(src, pos, 4) THEN RFail("short", r, pos)
  ELSE LET w4 == Slice(src, pos, 4) IN
    IF IsNeg(w4) THEN
      IF w4[1] # 128 \/ w4[2] # 1 THEN RFail("bad", r, pos)
      ELSE LET n == BStringAt(src, pos + 4) IN
        IF n.s # "ok" THEN RFail(n.s, r, n.p)
        ELSE IF ~Have(src, n.p, 4) THEN RFail("short", r, n.p)
        ELSE IF w4[4] \notin MsgTypes THEN RFail("any", r, n.p)
        ELSE ROk(r, n.p + 4, [e |-> 0, n |-> n.v, t |-> w4[4], id |-> Slice(src, n.p, 4)])
    ELSE IF r.p = "binary" THEN RFail("bad", r, pos)
    ELSE LET n == StringAt(src, pos + 4, Ext8(w4)) IN
        IF n.s # "ok" THEN RFail(n.s, r, n.p)
        ELSE IF ~Have(src, n.p, 5) THEN RFail("short", r, n.p)
        ELSE IF src[n.p + 1] \notin MsgTypes THEN RFail("any", r, n.p)
        ELSE ROk(r, n.p + 5, [e |-> 0, n |-> n.v, t |-> src[n.p + 1], id |-> Slice(src, n.p + 1, 4)])

BReadStep(r, src, pos, c) ==
  CASE c.c = "RMsgBegin" -> BMsgBegin(r, src, pos, c)
    [] c.c \in {"RMsgEnd", "RStructBegin", "RStructEnd", "RFieldEnd", "RMapEnd", "RSetEnd", "RListEnd"} ->
         ROk(r, pos, NoRes)
    [] c.c = "RFieldBegin" ->
         IF ~Have(src, pos, 1) THEN RFail("short", r, pos)
         ELSE IF src[pos + 1] = TSTOP THEN ROk(r, pos + 1, [e |-> 0, t |-> TSTOP])
         ELSE IF ~Have(src, pos, 3) THEN RFail("short", r, pos)
         ELSE IF src[pos + 1] \notin ValueTypes /\ c.e # 0 THEN RFail("any", r, pos)
         ELSE ROk(r, pos + 3, [e |-> 0, t |-> src[pos + 1], id |-> Int2(Slice(src, pos + 1, 2))])
    [] c.c = "RMapBegin" ->
         IF ~Have(src, pos, 6) THEN RFail("short", r, pos)
         ELSE LET s == Ext8(Slice(src, pos + 2, 4)) IN
           IF c.e # 0 /\ (IsNeg(s) \/ ~({src[pos + 1], src[pos + 2]} \subseteq ElemTypes)) THEN RFail("any", r, pos)
           ELSE ROk(r, pos + 6, [e |-> 0, k |-> src[pos + 1], v |-> src[pos + 2], s |-> s])
    [] c.c \in {"RSetBegin", "RListBegin"} ->
         IF ~Have(src, pos, 5) THEN RFail("short", r, pos)
         ELSE LET s == Ext8(Slice(src, pos + 1, 4)) IN
           IF c.e # 0 /\ (IsNeg(s) \/ src[pos + 1] \notin ElemTypes) THEN RFail("any", r, pos)
           ELSE ROk(r, pos + 5, [e |-> 0, t |-> src[pos + 1], s |-> s])
    [] c.c = "RBool" -> Fixed(r, src, pos, 1, Truth)
    [] c.c = "RByte" -> Fixed(r, src, pos, 1, First)
    [] c.c = "RI16"  -> Fixed(r, src, pos, 2, Id)
    [] c.c = "RI32"  -> Fixed(r, src, pos, 4, Id)
    [] c.c \in {"RI64", "RDouble"} -> Fixed(r, src, pos, 8, Id)
    [] c.c \in {"RUUID"} -> Fixed(r, src, pos, 16, Id)
    [] c.c = "RSkipUUID" ->
         IF Have(src, pos, 16) THEN ROk(r, pos + 16, NoRes) ELSE RFail("short", r, pos)
    [] c.c \in {"RString", "RBytes"} -> StrRes(r, BStringAt(src, pos))
    [] c.c = "RSkipString" ->
         LET x == BStringAt(src, pos) IN
         IF x.s = "ok" THEN ROk(r, x.p, NoRes) ELSE RFail(x.s, r, x.p)

\* --------------------------------------------------------------- compact
CStringAt(src, pos) ==
  LET n == ReadUvarint(src, pos) IN
  IF n.s # "ok" THEN [s |-> n.s, p |-> n.p, v |-> <<>>]
  ELSE IF IsNeg(n.v) THEN [s |-> "fail", p |-> pos, v |-> <<>>]
  ELSE StringAt(src, n.p, n.v)

CMsgBegin(r, src, pos, c) ==
  IF ~Have(src, pos, 1) THEN RFail("short", r, pos)
  ELSE IF src[pos + 1] # 130 THEN RFail("bad", r, pos)
  ELSE IF ~Have(src, pos, 2) THEN RFail("short", r, pos)
  ELSE IF src[pos + 2] % 32 # 1 THEN RFail("bad", r, pos)
  ELSE LET id == ReadUvarint(src, pos + 2) IN
    IF id.s # "ok" THEN RFail(id.s, r, pos)
    ELSE LET n == CStringAt(src, id.p) IN
      IF n.s # "ok" THEN RFail(n.s, r, pos)
      ELSE IF src[pos + 2] \div 32 \notin MsgTypes THEN RFail("any", r, pos)
      ELSE IF Fits(id.v, 4) \/ SubSeq(id.v, 1, 4) = <<0, 0, 0, 0>>
           THEN ROk(r, n.p, [e |-> 0, n |-> n.v, t |-> src[pos + 2] \div 32, id |-> Low(id.v, 4)])
           ELSE RFail("any", r, pos)

\* A zigzag varint that should fit n bytes.
CInt(r, src, pos, n) ==
  LET x == ReadUvarint(src, pos) IN
  IF x.s # "ok" THEN RFail(x.s, r, pos)
  ELSE LET v == UnZigZag(x.v) IN
    IF Fits(v, n) THEN ROk(r, x.p, [e |-> 0, v |-> Low(v, n)]) ELSE RFail("any", r, pos)

CFieldBegin(r, src, pos) ==
  IF ~Have(src, pos, 1) THEN RFail("short", r, pos)
  ELSE LET b    == src[pos + 1]
           code == b % 16
           d    == b \div 16
           Bf   == IF code \in {1, 2} THEN code ELSE r.bf
       IN
    IF code \notin CCodes THEN RFail("bad", r, pos)
    ELSE IF code = 0 THEN ROk(r, pos + 1, [e |-> 0, t |-> TSTOP])
    ELSE IF d # 0 THEN
      IF r.last + d > 32767 THEN RFail("any", r, pos)
      ELSE ROk([r EXCEPT !.last = @ + d, !.bf = Bf], pos + 1, [e |-> 0, t |-> CType(code), id |-> r.last + d])
    ELSE LET x == CInt(r, src, pos + 1, 2) IN
      IF x.s # "ok" THEN RFail(x.s, r, pos)
      ELSE ROk([r EXCEPT !.last = Int2(x.x.v), !.bf = Bf], x.p, [e |-> 0, t |-> CType(code), id |-> Int2(x.x.v)])

\* Sizes of 2^31 and more are outside the contract.
CMapHeader(r, src, pos) ==
  LET n == ReadUvarint(src, pos) IN
  IF n.s # "ok" THEN RFail(n.s, r, pos)
  ELSE IF n.v = Nat8(0) THEN ROk(r, n.p, [e |-> 0, s |-> n.v])
  ELSE IF ~Have(src, n.p, 1) THEN RFail("short", r, pos)
  ELSE LET k == src[n.p + 1] \div 16
           v == src[n.p + 1] % 16
       IN IF ~({k, v} \subseteq CCodes) THEN RFail("bad", r, pos)
          ELSE IF ~IsNat31(n.v) THEN RFail("any", r, pos)
          ELSE ROk(r, n.p + 1, [e |-> 0, k |-> CType(k), v |-> CType(v), s |-> n.v])

CSetHeader(r, src, pos) ==
  IF ~Have(src, pos, 1) THEN RFail("short", r, pos)
  ELSE LET code == src[pos + 1] % 16
           d    == src[pos + 1] \div 16
       IN IF code \notin CCodes THEN RFail("bad", r, pos)
          ELSE IF d < 15 THEN ROk(r, pos + 1, [e |-> 0, t |-> CType(code), s |-> Nat8(d)])
          ELSE LET n == ReadUvarint(src, pos + 1) IN
            IF n.s # "ok" THEN RFail(n.s, r, pos)
            ELSE IF ~IsNat31(n.v) THEN RFail("any", r, pos)
            ELSE ROk(r, n.p, [e |-> 0, t |-> CType(code), s |-> n.v])

CReadStep(r, src, pos, c) ==
  CASE c.c = "RMsgBegin" -> CMsgBegin(r, src, pos, c)
    [] c.c \in {"RMsgEnd", "RFieldEnd", "RMapEnd", "RSetEnd", "RListEnd"} -> ROk(r, pos, NoRes)
    [] c.c = "RStructBegin" -> ROk([r EXCEPT !.stk = Append(@, r.last), !.last = 0], pos, NoRes)
    [] c.c = "RStructEnd" ->
         IF r.stk = <<>> THEN RFail("any", r, pos)
         ELSE ROk([r EXCEPT !.last = r.stk[Len(r.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)], pos, NoRes)
    [] c.c = "RFieldBegin" -> CFieldBegin(r, src, pos)
    [] c.c = "RMapBegin" -> CMapHeader(r, src, pos)
    [] c.c \in {"RSetBegin", "RListBegin"} -> CSetHeader(r, src, pos)
    [] c.c = "RBool" ->
         IF r.bf # 0 THEN ROk([r EXCEPT !.bf = 0], pos, [e |-> 0, v |-> IF r.bf = 1 THEN 1 ELSE 0])
         ELSE IF ~Have(src, pos, 1) THEN RFail("short", r, pos)
         ELSE IF src[pos + 1] \in {0, 1} THEN ROk(r, pos + 1, [e |-> 0, v |-> src[pos + 1]])
         ELSE IF c.e = 0 THEN ROk(r, pos + 1, NoRes)    \* which value is open
         ELSE RFail("any", r, pos)
    [] c.c = "RByte" -> Fixed(r, src, pos, 1, First)
    [] c.c = "RDouble" -> Fixed(r, src, pos, 8, Rev)
    [] c.c = "RI16" -> CInt(r, src, pos, 2)
    [] c.c = "RI32" -> CInt(r, src, pos, 4)
    [] c.c = "RI64" -> CInt(r, src, pos, 8)
    [] c.c = "RUUID" -> Fixed(r, src, pos, 16, Id)
    [] c.c = "RSkipUUID" ->
         IF Have(src, pos, 16) THEN ROk(r, pos + 16, NoRes) ELSE RFail("short", r, pos)
    [] c.c \in {"RString", "RBytes"} -> StrRes(r, CStringAt(src, pos))
    [] c.c = "RSkipString" ->
         LET x == CStringAt(src, pos) IN
         IF x.s = "ok" THEN ROk(r, x.p, NoRes) ELSE RFail(x.s, r, x.p)

RStep(r, src, pos, c) == IF r.p = "compact" THEN CReadStep(r, src, pos, c) ELSE BReadStep(r, src, pos, c)

\* ------------------------------------------------------------------ Skip
\* Skipping is defined by the calls it makes: a reading whose results are
\* dropped.  SkipVal(r, src, pos, t) = [s, r, p].
SkipCall(t) == CASE t = TBOOL -> "RBool" [] t = TBYTE -> "RByte" [] t = TDOUBLE -> "RDouble" [] t = TI16 -> "RI16"
                 [] t = TI32 -> "RI32" [] t = TI64 -> "RI64" [] t = TSTRING -> "RSkipString" [] t = TUUID -> "RSkipUUID"
Call(n) == [c |-> n, e |-> 0]

RECURSIVE SkipVal(_, _, _, _), SkipFields(_, _, _), SkipN(_, _, _, _, _), SkipPairs(_, _, _, _, _, _)
SkipVal(r, src, pos, t) ==
  IF t \notin ValueTypes THEN RFail("bad", r, pos)
  ELSE IF t = TSTRUCT THEN SkipFields(RStep(r, src, pos, Call("RStructBegin")).r, src, pos)
  ELSE IF t = TMAP THEN
    LET h == RStep(r, src, pos, Call("RMapBegin")) IN
    IF h.s # "ok" THEN h
    ELSE IF IsNeg(h.x.s) \/ h.x.s = Nat8(0) THEN
      IF "k" \in DOMAIN h.x /\ ~({h.x.k, h.x.v} \subseteq ElemTypes) THEN RFail("any", h.r, h.p) ELSE ROk(h.r, h.p, NoRes)
    ELSE SkipPairs(h.r, src, h.p, h.x.k, h.x.v, ToNat(h.x.s))
  ELSE IF t \in {TSET, TLIST} THEN
    LET h == RStep(r, src, pos, Call("RListBegin")) IN
    IF h.s # "ok" THEN h
    ELSE IF IsNeg(h.x.s) \/ h.x.s = Nat8(0) THEN
      IF h.x.t \notin ElemTypes THEN RFail("any", h.r, h.p) ELSE ROk(h.r, h.p, NoRes)
    ELSE SkipN(h.r, src, h.p, h.x.t, ToNat(h.x.s))
  ELSE RStep(r, src, pos, Call(SkipCall(t)))
SkipFields(r, src, pos) ==
  LET h == RStep(r, src, pos, Call("RFieldBegin")) IN
  IF h.s # "ok" THEN h
  ELSE IF h.x.t = TSTOP THEN RStep(h.r, src, h.p, Call("RStructEnd"))
  ELSE LET v == SkipVal(h.r, src, h.p, h.x.t) IN
    IF v.s # "ok" THEN v ELSE SkipFields(v.r, src, v.p)
SkipN(r, src, pos, t, n) ==
  IF n = 0 THEN ROk(r, pos, NoRes)
  ELSE LET v == SkipVal(r, src, pos, t) IN
    IF v.s # "ok" THEN v ELSE SkipN(v.r, src, v.p, t, n - 1)
SkipPairs(r, src, pos, k, w, n) ==
  IF n = 0 THEN ROk(r, pos, NoRes)
  ELSE LET a == SkipVal(r, src, pos, k) IN
    IF a.s # "ok" THEN a
    ELSE LET v == SkipVal(a.r, src, a.p, w) IN
      IF v.s # "ok" THEN v ELSE SkipPairs(v.r, src, v.p, k, w, n - 1)
=============================================================================
