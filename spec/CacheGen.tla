----------------------------- MODULE CacheGen -----------------------------
(* Schedules for replay: the order in which the threads make their steps   *)
(* of input and output.                                                    *)
EXTENDS CacheDoc, Json

VARIABLE sched
gvars == <<vars, sched>>
GInit == Init /\ sched = <<>>
GNext == \E p \in Threads : Step(p) /\ sched' = IF out'[p] # out[p] THEN Append(sched, <<p, out'[p][Len(out'[p])]>>) ELSE sched
GSpec == GInit /\ [][GNext]_gvars
GDone == Done => PrintT("GEN " \o ToJson([root |-> [p \in 1..Cardinality(Threads) |-> root[p]], sched |-> sched]))
=============================================================================
