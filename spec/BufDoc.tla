------------------------------ MODULE BufDoc -------------------------------
(* A buffered reader of size Size over a source that delivers what it has  *)
(* in pieces of any size, and the helpers on top of it the way they are    *)
(* meant to work: look ahead in the buffer for at most its size, take what *)
(* is there, and go on.  Whatever the source does, each call returns what  *)
(* Buf says.                                                               *)
EXTENDS Buf, FiniteSets

CONSTANTS Size, MaxLen, MaxAsk

VARIABLES x,      \* the helper's view: Buf's state
          src,    \* how much the source has delivered
          buf,    \* offset of the first byte in the buffer
          err,    \* error the source gave, not yet returned
          due,    \* faults the source still has to give
          call,   \* [n, acc, left, k] or idle
          last    \* the last result: [want, b, e]
vars == <<x, src, buf, err, due, call, last>>

D(n) == [j \in 1..n |-> j]
Idle == [n |-> 0 - 1, acc |-> <<>>, left |-> 0]
None == [b |-> <<>>, e |-> 0]

Init == \E n \in 0..MaxLen, fs \in SUBSET (0..MaxLen), end \in {EOF, FAULT} :
          /\ \A o \in fs : o < n
          /\ x = [d |-> D(n), p |-> 0, fs |-> fs, end |-> end]
          /\ src = 0 /\ buf = 0 /\ err = 0 /\ due = fs /\ call = Idle /\ last = [want |-> None, got |-> None]

InBuf == src - buf
\* The source is asked for bytes: it gives some, and perhaps its error with
\* the last ones before it, or alone.
Limit == LET f == {o \in due : o >= src} IN IF f = {} THEN Len(x.d) ELSE CHOOSE o \in f : \A q \in f : o <= q
Fill ==
  /\ call # Idle
  /\ err = 0
  /\ LET m == IF call.left < Size THEN call.left ELSE Size IN InBuf < m
  /\ \E k \in 0..(Size - InBuf) :
       /\ src + k <= Limit
       /\ src' = src + k
       /\ \/ k > 0 /\ err' = 0 /\ due' = due
          \/ /\ src + k = Limit
             /\ err' = (IF Limit \in due THEN FAULT ELSE x.end)
             /\ due' = due \ {Limit}
  /\ UNCHANGED <<x, buf, call, last>>

Done(acc, e) == LET w == Take(x, call.n) IN
                /\ x' = w.x
                /\ last' = [want |-> [b |-> w.b, e |-> w.e], got |-> [b |-> acc, e |-> e]]
                /\ call' = Idle

\* One look ahead ends: enough is there, or an error.
Look ==
  /\ call # Idle
  /\ LET m == IF call.left < Size THEN call.left ELSE Size
         got == IF InBuf < m THEN InBuf ELSE m
         acc == call.acc \o SubSeq(x.d, buf + 1, buf + got) IN
     /\ InBuf >= m \/ err # 0
     /\ buf' = buf + got
     /\ IF got = m
        THEN /\ err' = err
             /\ IF call.left = m
                THEN Done(acc, 0)
                ELSE call' = [call EXCEPT !.acc = acc, !.left = @ - m] /\ UNCHANGED <<x, last>>
        ELSE /\ err' = 0
             /\ Done(acc, IF err = EOF /\ acc # <<>> THEN UnexpectedEOF ELSE err)
  /\ UNCHANGED <<src, due>>

Ask == /\ call = Idle
       /\ \E n \in 0..MaxAsk : call' = [n |-> n, acc |-> <<>>, left |-> n]
       /\ UNCHANGED <<x, src, buf, err, due, last>>

Next == Ask \/ Fill \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Fill) /\ WF_vars(Look)

Right == last.got = last.want
Where == call = Idle => buf = x.p
Returns == call # Idle ~> call = Idle
=============================================================================
