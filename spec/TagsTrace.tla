----------------------------- MODULE TagsTrace ------------------------------
(* Validates what Marshal and Unmarshal make of Go types.                  *)
(*   Struct [fs, nest, mz, mn, u]  a struct of i32 fields, itself or as    *)
(*       the only field of another (nest): marshaling zeros and others     *)
(*       [e, sem, n, ids]: error, whether it is a SemanticError, calls     *)
(*       made, IDs written; and unmarshaling [e, sem, n, in, vals]: the    *)
(*       fields delivered <<id, value>>, and the values afterwards         *)
(*   Refused [m, u]        a type without counterpart                      *)
(*   Holder [e, sem]       marshaling a type that holds such a type        *)
(*   Cycle [e, sem]        a value without end                             *)
(*   Deep [depth, e]       a value nested so deeply                        *)
EXTENDS Tags, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i
vars == <<t, i>>

Tr == Traces[t]
Ev == Tr.ev[i]

No(r, n) == r.e # 0 /\ r.sem = 1 /\ r.n = n
Sorted(ids) == SetToSortSeq(ids, LAMBDA a, b : a < b)
LastOf(in, id) == LET at == {j \in 1..Len(in) : in[j][1] = id} IN
                IF at = {} THEN 0 ELSE in[CHOOSE j \in at : \A k \in at : k <= j][2]

Struct(ev) ==
  LET v == Fields(ev.fs)
      kept == {j \in 1..Len(v) : v[j].k = "field"}
  IN IF Refused(ev.fs)
     THEN No(ev.mz, 2 * ev.nest) /\ No(ev.mn, 2 * ev.nest) /\ No(ev.u, 2 * ev.nest)
     ELSE /\ ev.mz.e = 0 /\ ev.mn.e = 0 /\ ev.u.e = 0
          /\ ev.mz.ids = Sorted({v[j].id : j \in {k \in kept : v[k].rq = 1}})
          /\ ev.mn.ids = Sorted({v[j].id : j \in kept})
          /\ \A j \in 1..Len(v) : ev.u.vals[j] = (IF j \in kept THEN LastOf(ev.u.in, v[j].id) ELSE 0)

Right(ev) ==
  CASE ev.c = "Struct" -> Struct(ev)
    [] ev.c = "Refused" -> No(ev.m, 0) /\ No(ev.u, 0)
    [] ev.c = "Holder" -> ev.e # 0 /\ ev.sem = 1
    [] ev.c = "Cycle" -> ev.e # 0 /\ ev.sem = 1
    [] ev.c = "Deep" -> ev.depth <= 10000 => ev.e = 0
    [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Tr.ev)
        /\ t' = t
        /\ IF Right(Ev) THEN i' = i + 1
           ELSE PrintT(<<"REJECT", Tr.id, i>>) /\ i' = Len(Tr.ev) + 2
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
