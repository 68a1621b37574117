----------------------------- MODULE IdlTrace ------------------------------
(* Validates what Parse made of documents against Lex and Idl, one token   *)
(* at a time.  A trace is [id, b, let, dig, ev]: a document and            *)
(*   Parse  [chk, tree, errs, nodes, n]: the tree in the order of the      *)
(*          source as items [l, b, x, y] (label, text, and the span of a   *)
(*          placeholder), 0 nodes if it was nil; the errors as line and    *)
(*          column pairs (0, 0 if it names another file); and how many     *)
(*          errors its text promises.                                      *)
EXTENDS Lex, Idl, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m
vars == <<t, i, m>>

Tr == Traces[t]
Ev == Tr.ev[i]
Doc == Tr

MaxDepth == 10000

\* --------------------------------------------------------- positions

Newlines(d) == SelectSeq([j \in 1..Len(d.b) |-> IF d.b[j] = 10 THEN j ELSE 0], LAMBDA x : x > 0)
\* The offset of a line and column, or -1.
Offset(d, nl, p) ==
  IF p[1] < 1 \/ p[2] < 1 \/ p[1] > Len(nl) + 1 THEN 0 - 1
  ELSE LET o == (IF p[1] = 1 THEN 0 ELSE nl[p[1] - 1]) + p[2] - 1
           past == IF p[1] > Len(nl) THEN Len(d.b) + 1 ELSE nl[p[1]] IN
       \* The end of the input may be given as a column of the last line
       \* even if that ends in a line break.
       IF o < past \/ (o = past /\ o = Len(d.b)) THEN o ELSE 0 - 1

Offsets(d, ev) == LET nl == Newlines(d) IN [j \in 1..Len(ev.errs) |-> Offset(d, nl, ev.errs[j])]

\* Every outcome has a tree, and errors inside the input.
Total(ev, offs) == ev.nodes > 0 /\ \A j \in 1..Len(offs) : offs[j] >= 0
\* ... in order.
Ordered(ev, offs) == ev.n = Len(offs) /\ \A j \in 2..Len(offs) : offs[j - 1] <= offs[j]

\* ------------------------------------------------------------ machine

\* A run: o offset, st stack, k position in the tree, bad where the
\* definition began that is a placeholder in the tree (or -1), errs whether
\* there was an error before, diff whether the tree differed, offs the
\* reported errors, w what to do next.
Begin(offs) == [w |-> "run", o |-> 0, st |-> Start, k |-> 1, bad |-> 0 - 1, errs |-> FALSE, diff |-> FALSE, offs |-> offs]

Idle   == [w |-> "idle"]
Reject == [w |-> "reject"]

\* An error within lo..hi after which nothing is said about the tree.
Broken(x, lo, hi) == IF x.errs \/ (Len(x.offs) > 0 /\ x.offs[1] >= lo /\ x.offs[1] <= hi) THEN Idle ELSE Reject

Item(ev, k) == IF k <= Len(ev.tree) THEN ev.tree[k] ELSE [l |-> "", b |-> <<>>, x |-> 0, y |-> 0]

\* A definition is given up at token tk.
GiveUp(x, tk) ==
  IF x.errs
  THEN (IF \E j \in 1..Len(x.offs) : x.offs[j] = tk.a THEN [x EXCEPT !.w = "skip"] ELSE Reject)
  ELSE (IF Len(x.offs) > 0 /\ x.offs[1] = tk.a THEN [x EXCEPT !.w = "skip", !.errs = TRUE] ELSE Reject)

\* ... and where parsing goes on.
Resume(x, ev, tk) ==
  LET n == Item(ev, x.k) IN
  [x EXCEPT !.w = "run", !.st = <<N("Defs")>>, !.k = @ + 1, !.bad = 0 - 1,
            !.diff = @ \/ x.bad < 0 \/ n.l # "bad" \/ n.x # x.bad \/ n.y # tk.a]

RECURSIVE Adv(_, _, _)
Adv(x, ev, tk) ==
  IF x.st = <<>>
  THEN (IF ~x.diff /\ x.k = Len(ev.tree) + 1 /\ (x.errs \/ x.offs = <<>>) THEN Idle ELSE Reject)
  ELSE LET s == Head(x.st)
           n == Item(ev, x.k)
           rest == Tail(x.st) IN
       IF s.y = "o"
       THEN (IF s.s = "end" THEN (IF x.bad >= 0 THEN Adv([x EXCEPT !.st = rest, !.bad = 0 - 1, !.diff = TRUE], ev, tk)
                                  ELSE Adv([x EXCEPT !.st = rest], ev, tk))
             ELSE IF x.bad >= 0 THEN Adv([x EXCEPT !.st = rest], ev, tk)
             ELSE Adv([x EXCEPT !.st = rest, !.k = @ + 1, !.diff = @ \/ n.l # s.s], ev, tk))
       ELSE IF s.y = "n"
       THEN LET e == Expand(s.s, tk.k)
                y == IF s.s = "Def" /\ n.l = "bad" THEN [x EXCEPT !.bad = tk.a] ELSE x IN
            IF e = Error THEN GiveUp(y, tk) ELSE Adv([y EXCEPT !.st = e \o rest], ev, tk)
       ELSE IF s.s # tk.k THEN Broken(x, tk.a, tk.a)
       ELSE IF s.y = "t" \/ x.bad >= 0 THEN [x EXCEPT !.st = rest, !.o = tk.z]
       ELSE [x EXCEPT !.st = rest, !.o = tk.z, !.k = @ + 1,
                      !.diff = @ \/ n.l # (IF s.s \in Words THEN "IDENT" ELSE s.s) \/ n.b # Text(Doc, tk.a, tk.z)]

\* A tree that differs matters at once if no error was reported.
Check(x) == IF x.w = "run" /\ x.diff /\ x.offs = <<>> THEN Reject ELSE x

Run(x, ev) ==
  LET tk == Token(Doc, x.o) IN
  IF tk.k = "BAD" THEN Broken(x, tk.lo, tk.hi)
  ELSE IF tk.k = "ODD" THEN Idle
  ELSE IF x.w = "skip"
  THEN (IF tk.k = "EOF" \/ tk.k \in Defining THEN Resume(x, ev, tk) ELSE [x EXCEPT !.o = tk.z])
  \* Where = may stand, == is taken for a wrong way to write it.
  ELSE IF tk.k = "==" /\ Accepts(x.st, "=") THEN Broken(x, tk.a, tk.a)
  ELSE Check(Adv(x, ev, tk))

Step(x, ev) ==
  IF x.w \in {"run", "skip"} THEN Run(x, ev)
  ELSE CASE ev.c = "Parse" ->
              LET offs == Offsets(Doc, ev) IN
              IF ~Total(ev, offs) THEN Reject
              ELSE IF ev.chk # "full" THEN Idle
              ELSE IF Ordered(ev, offs) THEN Begin(offs) ELSE Reject
         [] ev.c = "Deep" -> IF (ev.n = 0) = (ev.depth <= MaxDepth) /\ ev.nodes > 0 THEN Idle ELSE Reject
         \* A definition after others that were given up.
         [] ev.c = "Follow" -> IF (ev.n = 0) = (ev.depth <= MaxDepth) /\ ev.bad = (IF ev.depth <= MaxDepth THEN 0 ELSE 1) /\ ev.defs >= 2 THEN Idle ELSE Reject
         [] ev.c = "Time" -> IF ev.ms <= 2000 + 20 * ev.kb THEN Idle ELSE Reject
         [] ev.c = "Many" -> IF ev.ok = 1 THEN Idle ELSE Reject
         [] ev.c \in {"Panic", "Crash", "Hang"} -> Reject

Init == t \in 1..Len(Traces) /\ i = 1 /\ m = Idle
Next ==
  \/ /\ i <= Len(Tr.ev)
     /\ t' = t
     /\ LET n == Step(m, Ev) IN
        IF n.w = "reject"
        THEN /\ PrintT(<<"REJECT", Tr.id, i>>)
             /\ i' = Len(Tr.ev) + 2 /\ m' = Idle
        ELSE /\ i' = (IF n.w = "idle" THEN i + 1 ELSE i) /\ m' = n
  \/ /\ i > Len(Tr.ev)
     /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<t, i, IF m.w = "idle" THEN 0 ELSE m.o, IF m.w = "idle" THEN 0 ELSE m.k, m.w>>
=============================================================================
