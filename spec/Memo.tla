------------------------------- MODULE Memo --------------------------------
(* The recording memo: a writer whose steps are kept and a reader that     *)
(* replays them.  A memo is [bp, w, r, out, steps]: the breakpoint (0 for  *)
(* none), how many steps the writer and the reader made, what was written, *)
(* and the names of all steps.                                             *)
EXTENDS Naturals, Sequences

New(bp) == [bp |-> bp, w |-> 0, r |-> 0, out |-> <<>>, steps |-> <<>>]

\* Is the next of k steps still before the breakpoint?
Free(m, k) == m.bp = 0 \/ k + 1 < m.bp

\* Writer and reader steps: [m, e], e = 1 if the breakpoint stopped it.
Put(m, s, v) == IF Free(m, m.w)
                THEN [m |-> [m EXCEPT !.w = @ + 1, !.out = Append(@, [s |-> s, v |-> v]), !.steps = Append(@, s)], e |-> 0]
                ELSE [m |-> m, e |-> 1]

\* The end of a struct is written as the header that says so, too.
StopHeader == <<0, 0, 0>>
PutAll(m, s, v) == IF s # "StructEnd" THEN Put(m, s, v)
                   ELSE LET a == Put(m, "FieldBegin", StopHeader) IN IF a.e = 1 THEN a ELSE Put(a.m, s, v)

\* What a reader step finds: "break", "value", "wrong" kind, or the "end".
Find(m, s) == IF ~Free(m, m.r) THEN "break"
              ELSE IF m.r >= Len(m.out) THEN "end"
              ELSE IF m.out[m.r + 1].s = s THEN "value" ELSE "wrong"
Got(m)     == m.out[m.r + 1].v
Took(m, s) == [m EXCEPT !.r = @ + 1, !.steps = Append(@, s)]
=============================================================================
