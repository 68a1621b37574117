---------------------------- MODULE SuiteTrace -----------------------------
(* Validates the verdicts of the conformance suite.                        *)
(*   Suite [f, uuid, ok]   what it said of a protocol with a fault         *)
EXTENDS Suite, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i
vars == <<t, i>>

Tr == Traces[t]
Ev == Tr.ev[i]
Right(ev) == ev.c = "Suite" /\ (ev.ok = 1 <=> Harmless(ev.f, ev.uuid))

Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Tr.ev)
        /\ t' = t
        /\ IF Right(Ev) THEN i' = i + 1
           ELSE PrintT(<<"REJECT", Tr.id, i>>) /\ i' = Len(Tr.ev) + 2
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
