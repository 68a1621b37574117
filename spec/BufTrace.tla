----------------------------- MODULE BufTrace ------------------------------
(* Validates recorded calls of the buffered-read helpers.  A trace is      *)
(* [id, d, fs, end, ev], the source's content, faults and end, and         *)
(*   Bytes  [n, b, e, pre, out]  n bytes asked for, those returned and the *)
(*          error; out is pre, what was in the given buffer, as returned   *)
(*   Uvarint, Varint  [v, e]     an 8-byte word and the error              *)
(*   Rest   [n, e]               how many bytes could be read after that   *)
EXTENDS Buf, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m
vars == <<t, i, m>>

Tr == Traces[t]
Ev == Tr.ev[i]
Reject == [k |-> "reject"]
On(x) == [k |-> "on", x |-> x]

\* A source that gives nothing (error 7) fails in the end, for those who do
\* not give up before that.
Same(e, w) == e = w \/ (w = 7 /\ e = FAULT)

Step(x, ev) ==
  CASE ev.c = "Bytes" -> LET w == Take(x, ev.n) IN
                         IF ev.b = w.b /\ Same(ev.e, w.e) /\ ev.out = ev.pre THEN On(w.x) ELSE Reject
    [] ev.c = "Uvarint" -> LET w == Uv(x) IN IF ev.v = w.v /\ Same(ev.e, w.e) THEN On(w.x) ELSE Reject
    [] ev.c = "Varint" -> LET w == Uv(x) IN IF ev.v = UnZigZag(w.v) /\ Same(ev.e, w.e) THEN On(w.x) ELSE Reject
    [] ev.c = "Rest" -> LET s == Stop(x) IN IF ev.n = s.o - x.p /\ Same(ev.e, s.e) THEN On(x) ELSE Reject
    [] ev.c \in {"Panic", "Crash", "Hang"} -> Reject

Fresh == [k |-> "on", x |-> [d |-> <<>>, p |-> 0, fs |-> {}, end |-> EOF]]
Start == [k |-> "on", x |-> [d |-> Tr.d, p |-> 0, fs |-> {Tr.fs[j] : j \in 1..Len(Tr.fs)}, end |-> Tr.end]]

Init == t \in 1..Len(Traces) /\ i = 1 /\ m = Fresh
Next ==
  /\ i <= Len(Tr.ev)
  /\ t' = t
  /\ LET n == Step(IF i = 1 THEN Start.x ELSE m.x, Ev) IN
     IF n.k = "reject"
     THEN /\ PrintT(<<"REJECT", Tr.id, i>>)
          /\ i' = Len(Tr.ev) + 2 /\ m' = m
     ELSE /\ i' = i + 1 /\ m' = n
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
