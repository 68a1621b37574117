-------------------------------- MODULE Buf --------------------------------
(* The buffered-read helpers, by what they return: d is the content of the *)
(* source, ends with error end (1 end of input, 3 a fault); p is how much  *)
(* of it has been taken.  Faults on the way, after d[o] for some o and     *)
(* once each, are in fs.                                                   *)
EXTENDS ThriftBytes

EOF == 1
UnexpectedEOF == 2
FAULT == 3
OTHER_ == 4

\* Where input stops if it is needed beyond p: [o, e], the offset and error.
Stop(x) == LET f == {o \in x.fs : o >= x.p} IN
           IF f = {} THEN [o |-> Len(x.d), e |-> x.end]
           ELSE [o |-> CHOOSE o \in f : \A q \in f : o <= q, e |-> FAULT]

\* After n bytes were asked for: [x, b, e].
Take(x, n) ==
  LET s == Stop(x) IN
  IF x.p + n <= s.o
  THEN [x |-> [x EXCEPT !.p = @ + n], b |-> SubSeq(x.d, x.p + 1, x.p + n), e |-> 0]
  ELSE [x |-> [x EXCEPT !.p = s.o, !.fs = @ \ {s.o}], b |-> SubSeq(x.d, x.p + 1, s.o),
        e |-> IF s.e = EOF /\ s.o > x.p THEN UnexpectedEOF ELSE s.e]

\* The groups of 7 bits of the n bytes from p on, as an 8-byte word.
\* What encoding/binary.ReadUvarint returns: [x, v, e].
Uv(x) ==
  LET s == Stop(x)
      n == VarintEnd(SubSeq(x.d, 1, s.o), x.p, 1) IN
  IF n = 0
  THEN [x |-> [x EXCEPT !.p = s.o, !.fs = @ \ {s.o}], v |-> VarintVal(x.d, x.p, s.o - x.p),
        e |-> IF s.e = EOF /\ s.o > x.p THEN UnexpectedEOF ELSE s.e]
  ELSE IF n = 11
  THEN [x |-> [x EXCEPT !.p = @ + 10], v |-> VarintVal(x.d, x.p, 10), e |-> OTHER_]
  ELSE IF n = 10 /\ x.d[x.p + 10] > 1
  THEN [x |-> [x EXCEPT !.p = @ + 10], v |-> VarintVal(x.d, x.p, 9), e |-> OTHER_]
  ELSE [x |-> [x EXCEPT !.p = @ + n], v |-> VarintVal(x.d, x.p, n), e |-> 0]
=============================================================================
