------------------------------- MODULE Cache -------------------------------
(* Threads that marshal values of types which refer to each other, on      *)
(* shared per-type functions that are made when a type is first used.      *)
(*                                                                         *)
(* The functions for a type are looked up in a cache that may be filled    *)
(* by several threads at once (Load, make, LoadOrStore); those of a        *)
(* pointer look its element up at once, while those of a struct or         *)
(* container look up theirs once, when they are first called (sync.Once).  *)
(* The looking up must not wait for that of other types, since types may   *)
(* be recursive; and nothing may be used before it is complete.            *)
(*                                                                         *)
(* A thread's steps of input or output are the only ones seen from         *)
(* outside, and they have to be those of its own value alone, whatever     *)
(* the other threads do.  Variant takes out one ingredient at a time:      *)
(*   nested    the functions of the parts are initialised at once as well  *)
(*   early     the functions count as initialised before they are          *)
(*   replace   what is already in the cache is replaced                    *)
(*   holding   the initialisation of a type waits for a use of it to end   *)
(*   shared    the position within a value is kept with its type           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Graph, Roots, Depth, Variant

(* Graph[t] is [eager, deps]; Roots the types each thread may begin with. *)
Types == 1..Len(Graph)

VARIABLES
  cache,   \* type -> number of its functions in heap, 0 none
  heap,    \* functions: [ty, once, by, deps, runs, pos]
  stack,   \* thread -> frames
  ret,     \* thread -> result of the last lookup
  out,     \* thread -> its steps of input or output so far
  root     \* thread -> type of its value

vars == <<cache, heap, stack, ret, out, root>>

Frame(f, pc, ty, a, d) == [f |-> f, pc |-> pc, ty |-> ty, a |-> a, k |-> 1, d |-> d]
Look(ty)    == Frame("look", "load", ty, 0, 0)
Prep(a)     == Frame("init", "try", 0, a, 0)
Use(a, d)   == Frame("use", "init", 0, a, d)

Init ==
  /\ cache = [t \in Types |-> 0] /\ heap = <<>>
  /\ root \in [Threads -> Roots]
  /\ stack = [p \in Threads |-> <<Look(root[p])>>]
  /\ ret = [p \in Threads |-> 0] /\ out = [p \in Threads |-> <<>>]

Top(p)  == stack[p][Len(stack[p])]
Rest(p) == SubSeq(stack[p], 1, Len(stack[p]) - 1)
Pop(p)  == stack' = [stack EXCEPT ![p] = Rest(p)]
To(p, f) == stack' = [stack EXCEPT ![p] = Append(Rest(p), f)]
Push(p, f, g) == stack' = [stack EXCEPT ![p] = Append(Append(Rest(p), f), g)]

New(ty, once, deps) == [ty |-> ty, once |-> once, by |-> {}, deps |-> deps, runs |-> 0, pos |-> 0]

\* The lookup that a call begins with, then the use of what it found.
Finish(p) == IF Len(stack[p]) = 1 /\ Top(p).f = "look" THEN stack' = [stack EXCEPT ![p] = <<Use(ret'[p], 1)>>] ELSE Pop(p)

Load(p) == LET f == Top(p) IN
  /\ f.f = "look" /\ f.pc = "load"
  /\ IF cache[f.ty] # 0
     THEN ret' = [ret EXCEPT ![p] = cache[f.ty]] /\ Finish(p)
     ELSE /\ ret' = ret
          /\ IF Graph[f.ty].eager THEN Push(p, [f EXCEPT !.pc = "made"], Look(Graph[f.ty].deps[1]))
             ELSE To(p, [f EXCEPT !.pc = "store"])
  /\ UNCHANGED <<cache, heap, out, root>>

Made(p) == LET f == Top(p) IN
  /\ f.f = "look" /\ f.pc = "made"
  /\ To(p, [f EXCEPT !.pc = "store", !.a = ret[p]])
  /\ UNCHANGED <<cache, heap, ret, out, root>>

Store(p) == LET f == Top(p) IN
  /\ f.f = "look" /\ f.pc = "store"
  /\ IF cache[f.ty] # 0 /\ Variant # "replace"
     THEN cache' = cache /\ heap' = heap
     ELSE /\ heap' = Append(heap, IF Graph[f.ty].eager THEN New(f.ty, "done", <<f.a>>) ELSE New(f.ty, "no", <<>>))
          /\ cache' = [cache EXCEPT ![f.ty] = Len(heap')]
  /\ ret' = [ret EXCEPT ![p] = cache'[f.ty]]
  /\ Finish(p)
  /\ UNCHANGED <<out, root>>

Begin(p) == LET f == Top(p) h == heap[f.a] IN
  /\ f.f = "init" /\ f.pc = "try"
  /\ \/ h.once = "done" /\ Pop(p) /\ heap' = heap
     \/ /\ h.once = "no" /\ To(p, [f EXCEPT !.pc = "dep"])
        /\ (Variant = "holding" => h.by = {})
        /\ heap' = [heap EXCEPT ![f.a].once = IF Variant = "early" THEN "done" ELSE "running", ![f.a].runs = @ + 1]
  /\ UNCHANGED <<cache, ret, out, root>>

Dep(p) == LET f == Top(p) h == heap[f.a] IN
  /\ f.f = "init" /\ f.pc = "dep"
  /\ IF f.k > Len(Graph[h.ty].deps)
     THEN heap' = [heap EXCEPT ![f.a].once = "done"] /\ Pop(p)
     ELSE heap' = heap /\ Push(p, [f EXCEPT !.pc = "got"], Look(Graph[h.ty].deps[f.k]))
  /\ UNCHANGED <<cache, ret, out, root>>

Got(p) == LET f == Top(p) IN
  /\ f.f = "init" /\ f.pc = "got"
  /\ heap' = [heap EXCEPT ![f.a].deps = Append(@, ret[p])]
  /\ IF Variant = "nested" THEN Push(p, [f EXCEPT !.pc = "dep", !.k = @ + 1], Prep(ret[p]))
     ELSE To(p, [f EXCEPT !.pc = "dep", !.k = @ + 1])
  /\ UNCHANGED <<cache, ret, out, root>>

Enter(p) == LET f == Top(p) IN
  /\ f.f = "use" /\ f.pc = "init"
  /\ Push(p, [f EXCEPT !.pc = "io"], Prep(f.a))
  /\ heap' = IF Variant = "holding" THEN [heap EXCEPT ![f.a].by = @ \cup {p}] ELSE heap
  /\ UNCHANGED <<cache, ret, out, root>>

\* A step of input or output: the begin of a value.
IO(p) == LET f == Top(p) IN
  /\ f.f = "use" /\ f.pc = "io"
  /\ out' = [out EXCEPT ![p] = Append(@, heap[f.a].ty)]
  /\ To(p, [f EXCEPT !.pc = "kid"])
  /\ heap' = IF Variant = "shared" THEN [heap EXCEPT ![f.a].pos = 1] ELSE heap
  /\ UNCHANGED <<cache, ret, root>>

Kid(p) == LET f == Top(p)
              h == heap[f.a]
              k == IF Variant = "shared" THEN h.pos ELSE f.k IN
  /\ f.f = "use" /\ f.pc = "kid"
  /\ IF k > Len(h.deps) \/ f.d = Depth
     THEN Pop(p) /\ heap' = [heap EXCEPT ![f.a].by = @ \ {p}]
     ELSE /\ Push(p, [f EXCEPT !.k = @ + 1], Use(h.deps[k], f.d + 1))
          /\ heap' = IF Variant = "shared" THEN [heap EXCEPT ![f.a].pos = k + 1] ELSE heap
  /\ UNCHANGED <<cache, ret, out, root>>

Step(p) == stack[p] # <<>> /\ (Load(p) \/ Made(p) \/ Store(p) \/ Begin(p) \/ Dep(p) \/ Got(p) \/ Enter(p) \/ IO(p) \/ Kid(p))
Done == \A p \in Threads : stack[p] = <<>>
Next == (\E p \in Threads : Step(p)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in Threads : WF_vars(Step(p))

------------------------------------------------------------------------------
\* What a value of type ty gives alone.
RECURSIVE Alone(_, _)
RECURSIVE Kids(_, _, _)
Alone(ty, d) == <<ty>> \o (IF d = Depth THEN <<>> ELSE Kids(ty, 1, d + 1))
Kids(ty, k, d) == IF k > Len(Graph[ty].deps) THEN <<>> ELSE Alone(Graph[ty].deps[k], d) \o Kids(ty, k + 1, d)

Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

\* Every call does what it does alone.
AsAlone == \A p \in Threads : LET w == Alone(root[p], 1) IN
  Prefix(out[p], w) /\ (stack[p] = <<>> => out[p] = w)

\* The functions in the cache are those of their types and stay there;
\* they are initialised once, and complete when they are used.
Sound == \A t \in Types : cache[t] # 0 => heap[cache[t]].ty = t
Stays == [][\A t \in Types : cache[t] # 0 => cache'[t] = cache[t]]_vars
Once  == \A a \in 1..Len(heap) : heap[a].runs <= 1
Complete == \A p \in Threads : stack[p] # <<>> =>
  LET f == Top(p) IN f.f = "use" /\ f.pc \in {"io", "kid"} =>
    LET h == heap[f.a] IN /\ Len(h.deps) = Len(Graph[h.ty].deps)
                          /\ \A k \in 1..Len(h.deps) : heap[h.deps[k]].ty = Graph[h.ty].deps[k]
                          /\ \A k \in 1..Len(h.deps) : h.deps[k] = cache[Graph[h.ty].deps[k]]

Ends == <>Done
=============================================================================
