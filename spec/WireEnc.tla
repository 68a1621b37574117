------------------------------ MODULE WireEnc ------------------------------
(* The writer half of the protocols as a state machine.  A state is        *)
(* [p, stk, last, pb]: the protocol, the previous field IDs of the         *)
(* enclosing structs, that of the current one, and the boolean field whose *)
(* header is still to be written.  WStep(w, c) is what the call c does:    *)
(* the next state, the bytes it adds to the stream, and whether it         *)
(* succeeds ("ok"), must fail ("bad") or is outside the contract ("any").  *)
EXTENDS ThriftBytes, WireTypes

NoPend == [on |-> FALSE, id |-> 0]
WInit(p) == [p |-> p, stk |-> <<>>, last |-> 0, pb |-> NoPend]

WOk(w, out)  == [s |-> "ok",  w |-> w, out |-> out]
WBad(w)      == [s |-> "bad", w |-> w, out |-> <<>>]
WAny(w)      == [s |-> "any", w |-> w, out |-> <<>>]

\* ---------------------------------------------------------------- binary
BSize(s8) == Low(s8, 4)
BString(v) == BSize(Nat8(Len(v))) \o v
BVersion(t) == <<128, 1, 0, t>>

BMsg(strict, c) ==
  IF strict THEN BVersion(c.t) \o BString(c.n) \o c.id
            ELSE BString(c.n) \o <<c.t>> \o c.id

BStep(w, c) ==
  CASE c.c = "WMsgBegin"    -> WOk(w, BMsg(w.p = "binary", c))
    [] c.c \in {"WMsgEnd", "WStructBegin", "WFieldEnd", "WMapEnd", "WSetEnd", "WListEnd"} -> WOk(w, <<>>)
    [] c.c = "WStructEnd"   -> WOk(w, <<TSTOP>>)
    [] c.c = "WFieldBegin"  -> WOk(w, <<c.t>> \o Word2(c.id))
    [] c.c = "WMapBegin"    -> IF Fits(c.s, 4) THEN WOk(w, <<c.k, c.v>> \o BSize(c.s)) ELSE WBad(w)
    [] c.c \in {"WSetBegin", "WListBegin"} -> IF Fits(c.s, 4) THEN WOk(w, <<c.t>> \o BSize(c.s)) ELSE WBad(w)
    [] c.c = "WBool"        -> WOk(w, <<c.v>>)
    [] c.c = "WByte"        -> WOk(w, <<c.v>>)
    [] c.c \in {"WI16", "WI32", "WI64", "WDouble", "WUUID"} -> WOk(w, c.v)
    [] c.c \in {"WString", "WBytes"} -> WOk(w, BString(c.v))

\* --------------------------------------------------------------- compact
\* Header of field id of compact type code, after field last of the same struct.
CField(code, id, last) ==
  IF id > last /\ id - last <= 15
  THEN <<(id - last) * 16 + code>>
  ELSE <<code>> \o Varint(Ext8(Word2(id)))

CString(v) == Uvarint(Nat8(Len(v))) \o v

\* Header of a set or list with s8 elements; a size above 14 follows the type.
CSet(t, s8) ==
  IF IsNat31(s8) /\ ToNat(s8) < 15
  THEN <<ToNat(s8) * 16 + CCode(t)>>
  ELSE <<240 + CCode(t)>> \o Uvarint(s8)

CMap(k, v, s8) ==
  IF s8 = Nat8(0) THEN <<0>> ELSE Uvarint(s8) \o <<CCode(k) * 16 + CCode(v)>>

CStep(w, c) ==
  CASE c.c = "WMsgBegin"    -> WOk(w, <<130, 1 + 32 * c.t>> \o Uvarint(<<0, 0, 0, 0>> \o c.id) \o CString(c.n))
    [] c.c \in {"WMsgEnd", "WFieldEnd", "WMapEnd", "WSetEnd", "WListEnd"} -> WOk(w, <<>>)
    [] c.c = "WStructBegin" -> WOk([w EXCEPT !.stk = Append(@, w.last), !.last = 0], <<>>)
    [] c.c = "WStructEnd"   ->
         IF w.stk = <<>> THEN WAny(w)
         ELSE WOk([w EXCEPT !.last = w.stk[Len(w.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)], <<0>>)
    [] c.c = "WFieldBegin"  ->
         IF c.t = TBOOL THEN WOk([w EXCEPT !.pb = [on |-> TRUE, id |-> c.id]], <<>>)
         ELSE IF c.t \notin CTypes THEN WBad(w)
         ELSE WOk([w EXCEPT !.last = c.id], CField(CCode(c.t), c.id, w.last))
    [] c.c = "WBool"        ->
         IF w.pb.on
         THEN WOk([w EXCEPT !.pb = NoPend, !.last = w.pb.id],
                 CField(IF c.v = 1 THEN 1 ELSE 2, w.pb.id, w.last))
         ELSE WOk(w, <<c.v>>)
    [] c.c = "WMapBegin"    ->
         IF IsNeg(c.s) THEN WAny(w)
         ELSE IF c.s # Nat8(0) /\ {c.k, c.v} \subseteq CTypes THEN WOk(w, CMap(c.k, c.v, c.s))
         ELSE IF c.s = Nat8(0) THEN WOk(w, <<0>>)
         ELSE WBad(w)
    [] c.c \in {"WSetBegin", "WListBegin"} ->
         IF IsNeg(c.s) THEN WAny(w)
         ELSE IF c.t \in CTypes THEN WOk(w, CSet(c.t, c.s))
         ELSE IF c.t = TSTOP /\ c.s = Nat8(0) THEN WOk(w, <<0>>)
         ELSE WBad(w)
    [] c.c = "WByte"        -> WOk(w, <<c.v>>)
    [] c.c = "WDouble"      -> WOk(w, Rev(c.v))
    [] c.c \in {"WI16", "WI32", "WI64"} -> WOk(w, Varint(Ext8(c.v)))
    [] c.c = "WUUID"        -> WOk(w, c.v)
    [] c.c \in {"WString", "WBytes"} -> WOk(w, CString(c.v))

WStep(w, c) == IF w.p = "compact" THEN CStep(w, c) ELSE BStep(w, c)
=============================================================================
