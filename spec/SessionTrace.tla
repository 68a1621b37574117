--------------------------- MODULE SessionTrace ---------------------------
(* Validates recorded exchanges of two real parties.  An event is in the   *)
(* log before its call for Send and Flush, and after it for Recv; m is the *)
(* content of the message.                                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

S == INSTANCE Session WITH MaxLen <- 1, Ahead <- 0, script <- <<>>, pos <- <<>>, c <- <<>>, got <- <<>>

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m
vars == <<t, i, m>>

Tr == Traces[t]
Ev == Tr.ev[i]
Reject == [k |-> "reject"]
On(c) == [k |-> "c", c |-> c]

Step(x, ev) ==
  CASE ev.c = "New"   -> On(S!Empty)
    [] ev.c = "Send"  -> On(S!Send(x.c, ev.p, ev.m))
    [] ev.c = "Flush" -> On(S!Flush(x.c, ev.p))
    \* What is kept may be given away.
    [] ev.c = "Recv"  -> LET q == S!Other(ev.p)
                             d == IF x.c.net[ev.p] = <<>> /\ x.c.out[q] # <<>> THEN S!Spill(x.c, q) ELSE x.c IN
                         IF ev.e = 0 /\ d.net[ev.p] # <<>> /\ Head(d.net[ev.p]) = ev.m THEN On(S!Recv(d, ev.p)) ELSE Reject
    \* Everybody is done; left is the number of bytes nobody read.
    [] ev.c = "End"   -> IF x.c = S!Empty /\ ev.left = 0 THEN x ELSE Reject
    [] ev.c \in {"Stall", "Error", "Panic", "Crash", "Hang"} -> Reject

Init == t \in 1..Len(Traces) /\ i = 1 /\ m = [k |-> "none"]
Next ==
  /\ i <= Len(Tr.ev)
  /\ t' = t
  /\ LET n == Step(m, Ev) IN
     IF n.k = "reject"
     THEN /\ PrintT(<<"REJECT", Tr.id, i>>)
          /\ i' = Len(Tr.ev) + 2 /\ m' = m
     ELSE /\ i' = i + 1 /\ m' = n
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
