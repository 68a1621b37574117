----------------------------- MODULE ArshTrace -----------------------------
(* Validates recorded calls of Marshal, Unmarshal and Skip against the     *)
(* machines of Arshal.  A trace is [id, ty, ev]; see the events in Step.   *)
EXTENDS Arshal, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m
vars == <<t, i, m>>

Tr == Traces[t]
Ev == Tr.ev[i]
Ty == Tr.ty

\* The declared codes and their names, in lower case.
TypeName == 0 :> "stop" @@ 2 :> "bool" @@ 3 :> "byte" @@ 4 :> "double" @@ 6 :> "i16" @@ 8 :> "i32" @@ 10 :> "i64"
            @@ 11 :> "string" @@ 12 :> "struct" @@ 13 :> "map" @@ 14 :> "set" @@ 15 :> "list" @@ 16 :> "uuid"
MessageName == 1 :> "call" @@ 2 :> "reply" @@ 3 :> "exception" @@ 4 :> "oneway"

Reject == [k |-> "reject"]
Idle   == [k |-> "idle", h |-> <<>>, dt |-> 0, nl |-> 0]

FaultOf(x, ev) == IF ev.e # 0 /\ x.fault = 0 THEN ev.e ELSE x.fault

\* The heap a destination starts with: the destination, then the labelled
\* objects (whose labels are therefore one more than in the trace), then
\* the unlabelled targets inside.
RECURSIVE Shift(_)
Shift(v) == [v EXCEPT !.p = IF @ = 0 THEN 0 ELSE @ + 1, !.c = [j \in 1..Len(v.c) |-> Shift(v.c[j])]]
Heap0(ev) == <<[t |-> ev.t, v |-> Shift(ev.v)]>> \o [j \in 1..Len(ev.objs) |-> [t |-> ev.objs[j].t, v |-> Shift(ev.objs[j].v)]]

SameHeap(x, u, ev) ==
  /\ Canon(Ty, u.h, x.nl, x.dt, u.h[1].v) = Canon(Ty, <<>>, x.nl, x.dt, Shift(ev.v))
  /\ \A j \in 1..Len(ev.objs) :
       Canon(Ty, u.h, x.nl, ev.objs[j].t, u.h[j + 1].v) = Canon(Ty, <<>>, x.nl, ev.objs[j].t, Shift(ev.objs[j].v))

Step(x, ev) ==
  CASE ev.c = "Marshal" -> [k |-> "m", s |-> MInit(Ty, ev.t, ev.v), fault |-> 0, t |-> ev.t, v |-> ev.v]
    [] ev.c = "Dest" -> [k |-> "idle", h |-> Heap0(ev), dt |-> ev.t, nl |-> 1 + Len(ev.objs)]
    [] ev.c = "Unmarshal" -> [k |-> "u", u |-> Run(Ty, UInit(x.h, x.dt)), fault |-> 0, dt |-> x.dt, nl |-> x.nl]
    [] ev.c = "Skip" -> [k |-> "s", u |-> Run(Ty, [h |-> <<>>, todo |-> <<SkipIt(ev.t)>>]), fault |-> 0]
    \* A value and what became of it by Marshal and Unmarshal.
    [] ev.c = "Round" -> IF ev.e = 0 /\ Canon(Ty, <<>>, 0, ev.t, Rt(Ty, ev.t, ev.v)) = Canon(Ty, <<>>, 0, ev.t, ev.out)
                         THEN x ELSE Reject
    \* Both Marshal and Unmarshal refuse the type before any call.
    [] ev.c = "Refused" -> IF ev.e # 0 /\ ev.sem = 1 /\ ev.n = 0 THEN x ELSE Reject
    [] ev.c = "Deep" -> IF (ev.e = 0) = (ev.depth <= 10000) THEN x ELSE Reject
    [] ev.c = "Mem" -> IF ev.kb <= 2048 + ev.mul * ev.kin THEN x ELSE Reject
    \* The same value again, from the bytes of a stream: what came of the
    \* calls must come of it, too.
    [] ev.c = "Same" -> IF x.k = "idle" /\ x.dt # 0 /\ ev.e = 0 /\ SameHeap(x, x, ev) THEN x ELSE Reject
    \* n of its bytes, and then the error end.
    [] ev.c = "Cut" -> IF CASE ev.n >= ev.of -> ev.e = 0
                            [] ev.end = 1 -> ev.e \in (IF ev.n = 0 THEN {1} ELSE {1, 2})
                            [] OTHER -> ev.e = ev.end
                       THEN x ELSE Reject
    \* What the error says that ends the current Marshal or Unmarshal.
    [] ev.c = "Err" -> IF CASE x.k = "m" -> \E w \in x.s : w # <<>> /\ Tells("marshal", Head(w), ev)
                            [] x.k \in {"u", "s"} -> x.u.todo # <<>> /\ Tells("unmarshal", Head(x.u.todo), ev)
                            [] OTHER -> FALSE
                       THEN x ELSE Reject
    \* The error of a refusal, about one of the Go types gs.
    [] ev.c = "Refusal" -> IF Telling(ev.act, ev) /\ ev.gt \in UNION {IF g = 0 THEN {0} ELSE Chain(Ty, g) : g \in Range(ev.gs)}
                              /\ ev.wt \in Range(ev.ws) /\ ev.names = 1
                           THEN x ELSE Reject
    \* A Thrift type that is none, one of ws.
    [] ev.c = "Invalid" -> IF ev.ite \in Range(ev.ws) THEN x ELSE Reject
    \* The text of a code: the name of a declared one, else its number.
    [] ev.c = "Named" -> IF LET names == IF ev.what = "type" THEN TypeName ELSE MessageName IN
                            IF ev.code \in DOMAIN names THEN ev.text = names[ev.code]
                            ELSE ev.text \notin {names[d] : d \in DOMAIN names} /\ ev.code \in Range(ev.nums)
                         THEN x ELSE Reject
    [] ev.c = "Equal" -> IF ev.a = ev.b THEN x ELSE Reject
    \* A container of n elements that are not in the trace: whether all of
    \* them came through, and nothing else.
    [] ev.c = "Many" -> IF ev.e = 0 /\ ev.ok = 1 THEN x ELSE Reject
    [] ev.c \in {"Panic", "Crash", "Hang"} -> Reject
    [] x.k = "m" /\ ev.c = "Done" -> IF MDone(x.s, ev.e, x.fault, ev.sem) /\ Canon(Ty, <<>>, 0, x.t, x.v) = Canon(Ty, <<>>, 0, x.t, ev.v)
                                      THEN Idle ELSE Reject
    [] x.k = "m" -> LET n == MStep(Ty, x.s, ev) IN
                    IF n = {} THEN Reject ELSE [x EXCEPT !.s = n, !.fault = FaultOf(x, ev)]
    [] x.k = "u" /\ ev.c = "Done" ->
         IF ~UDone(x.u, ev.e, x.fault, ev.sem) THEN Reject
         ELSE IF ev.e = 0 THEN IF SameHeap(x, x.u, ev) THEN [k |-> "idle", h |-> x.u.h, dt |-> x.dt, nl |-> x.nl] ELSE Reject
         ELSE Idle
    [] x.k = "s" /\ ev.c = "Done" -> IF UDone(x.u, ev.e, x.fault, 1) THEN Idle ELSE Reject
    [] x.k \in {"u", "s"} -> LET n == UStep(Ty, x.u, ev) IN
                    IF n = NoState THEN Reject ELSE [x EXCEPT !.u = n, !.fault = FaultOf(x, ev)]

Init == t \in 1..Len(Traces) /\ i = 1 /\ m = Idle
Next ==
  /\ i <= Len(Tr.ev)
  /\ t' = t
  /\ LET n == Step(m, Ev) IN
     IF n.k = "reject"
     THEN /\ PrintT(<<"REJECT", Tr.id, i>>)
          /\ i' = Len(Tr.ev) + 2 /\ m' = m
     ELSE /\ i' = i + 1 /\ m' = n
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
