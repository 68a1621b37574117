----------------------------- MODULE WireTypes -----------------------------
(* Thrift types, and the type codes of the compact protocol.               *)
EXTENDS Integers, Sequences

TSTOP == 0   TBOOL == 2   TBYTE == 3   TDOUBLE == 4   TI16 == 6   TI32 == 8   TI64 == 10
TSTRING == 11   TSTRUCT == 12   TMAP == 13   TSET == 14   TLIST == 15   TUUID == 16

ValueTypes == {TBOOL, TBYTE, TDOUBLE, TI16, TI32, TI64, TSTRING, TSTRUCT, TMAP, TSET, TLIST, TUUID}

CTypes == {TBYTE, TI16, TI32, TI64, TDOUBLE, TSTRING, TLIST, TSET, TMAP, TSTRUCT, TUUID, TBOOL}

\* Compact code of a type; TBOOL is 2 (boolean false) except for a true field.
CCode(t) == CASE t = TBOOL -> 2 [] t = TBYTE -> 3 [] t = TI16 -> 4 [] t = TI32 -> 5 [] t = TI64 -> 6
              [] t = TDOUBLE -> 7 [] t = TSTRING -> 8 [] t = TLIST -> 9 [] t = TSET -> 10
              [] t = TMAP -> 11 [] t = TSTRUCT -> 12 [] t = TUUID -> 13

CCodes == 0..13
CType(code) == <<TSTOP, TBOOL, TBOOL, TBYTE, TI16, TI32, TI64, TDOUBLE, TSTRING, TLIST, TSET, TMAP, TSTRUCT, TUUID>>[code + 1]

MsgTypes == 1..4
Protocols == {"binary", "nonstrict", "compact"}
=============================================================================
