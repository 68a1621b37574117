----------------------------- MODULE MemoTrace -----------------------------
(* Validates recorded uses of a memo.                                      *)
(*   New   [bp]              a new memo, or one reset, with a breakpoint   *)
(*   W     [s, v, e]         a writer call, its value, and its error       *)
(*   R     [s, v, e, p]      a reader call; p = 1 if it panicked           *)
(*   Skip  [s, e, p]         the same without a value                      *)
(*   Steps [l]               the names of the steps                        *)
(* e = 1 is the breakpoint's error, 2 any other one.                       *)
EXTENDS Memo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m
vars == <<t, i, m>>

Tr == Traces[t]
Ev == Tr.ev[i]
Reject == [k |-> "reject"]
Unsaid == [k |-> "any"]
On(x) == [k |-> "memo", m |-> x]

Read(x, ev) ==
  LET f == Find(x.m, ev.s) IN
  CASE f = "break" -> IF ev.e = 1 /\ ev.p = 0 THEN x ELSE Reject
    [] f = "value" -> IF ev.e = 0 /\ ev.p = 0 /\ (ev.c = "Skip" \/ ev.v = Got(x.m)) THEN On(Took(x.m, ev.s)) ELSE Reject
    [] f = "wrong" -> IF ev.p = 1 THEN Unsaid ELSE Reject
    \* Nothing is said about reading more than there is.
    [] f = "end"   -> Unsaid

Step(x, ev) ==
  CASE ev.c = "New" -> On(New(ev.bp))
    [] ev.c \in {"Panic", "Crash", "Hang"} -> Reject
    \* More steps than a trace can have, compared by the driver.
    [] ev.c = "Many" -> IF ev.ok = 1 THEN x ELSE Reject
    [] x.k = "any" -> x
    [] ev.c = "W" -> LET p == PutAll(x.m, ev.s, ev.v) IN IF p.e = ev.e THEN On(p.m) ELSE Reject
    [] ev.c \in {"R", "Skip"} -> Read(x, ev)
    [] ev.c = "Steps" -> IF ev.l = x.m.steps THEN x ELSE Reject

Init == t \in 1..Len(Traces) /\ i = 1 /\ m = Unsaid
Next ==
  /\ i <= Len(Tr.ev)
  /\ t' = t
  /\ LET n == Step(m, Ev) IN
     IF n.k = "reject"
     THEN /\ PrintT(<<"REJECT", Tr.id, i>>)
          /\ i' = Len(Tr.ev) + 2 /\ m' = m
     ELSE /\ i' = i + 1 /\ m' = n
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
