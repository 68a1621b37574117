------------------------------ MODULE MemoDoc ------------------------------
(* Explores memos: every sequence of writer steps, then reader steps, with *)
(* every breakpoint; and generates them for replay.                        *)
EXTENDS Memo, FiniteSets, TLC, Json

CONSTANTS Names, MaxBreak, MaxOps, Gen

VARIABLES m, ops
vars == <<m, ops>>

Last == IF ops = <<>> THEN "w" ELSE ops[Len(ops)].o

Init == \E bp \in 0..MaxBreak : m = New(bp) /\ ops = <<>>
Write == /\ m.r = 0 /\ \A j \in 1..Len(ops) : ops[j].o = "w"
         /\ \E s \in Names : LET p == PutAll(m, s, <<Len(ops)>>) IN m' = p.m /\ ops' = Append(ops, [o |-> "w", s |-> s])
Read == \E s \in Names \cup {"FieldBegin"} :
          LET f == Find(m, s) IN
          /\ f \in {"break", "value"} \/ (f = "wrong" /\ Gen)
          /\ Last # "x"
          /\ m' = (IF f = "value" THEN Took(m, s) ELSE m)
          /\ ops' = Append(ops, [o |-> IF f = "wrong" THEN "x" ELSE "r", s |-> s])
Next == Len(ops) < MaxOps /\ (Write \/ Read)
Spec == Init /\ [][Next]_vars

\* The reader went over the writer's steps in order, and the names are
\* those of the writer followed by those of the reader.
Replayed == /\ m.r <= Len(m.out) /\ m.w = Len(m.out)
            /\ Len(m.steps) = m.w + m.r
            /\ \A j \in 1..m.w : m.steps[j] = m.out[j].s
            /\ \A j \in 1..m.r : m.steps[m.w + j] = m.out[j].s
\* Before the breakpoint everything succeeds, and nothing at or after it.
Broken == m.bp > 0 => m.w < m.bp /\ m.r < m.bp
AllBefore == m.bp = 0 => m.w = Cardinality({j \in 1..Len(ops) : ops[j].o = "w"}) + Cardinality({j \in 1..Len(ops) : ops[j] = [o |-> "w", s |-> "StructEnd"]})

Dump == ~Gen \/ Last = "w" \/ PrintT("GEN " \o ToJson([bp |-> m.bp, ops |-> ops]))
=============================================================================
