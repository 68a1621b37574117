------------------------------ MODULE Session ------------------------------
(* Two parties exchange messages over a connection.  A script lists who    *)
(* sends the messages, one after another; each party follows its part of   *)
(* it: it sends its own messages, which its writer may keep until it       *)
(* flushes, and waits for the others.  It flushes before it waits.  As     *)
(* long as a reader needs nothing beyond a message to return it, this      *)
(* always ends, with all messages delivered once each and in order.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS MaxLen,   \* of a script
          Ahead     \* messages a reader wants to see behind the one it returns

Gen == "GEN" \in DOMAIN IOEnv
Other(p) == 3 - p

\* ----------------------------------------------------- a connection's state
\* out: what a party's writer keeps; net: what has been sent to a party.
Empty == [out |-> <<<<>>, <<>>>>, net |-> <<<<>>, <<>>>>]

Send(c, p, m) == [c EXCEPT !.out[p] = Append(@, m)]
\* A writer may give away what it keeps at any time.
Spill(c, p)   == [c EXCEPT !.net[Other(p)] = Append(@, Head(c.out[p])), !.out[p] = Tail(@)]
Flush(c, p)   == [c EXCEPT !.net[Other(p)] = @ \o c.out[p], !.out[p] = <<>>]
Recv(c, p)    == [c EXCEPT !.net[p] = Tail(@)]

\* ------------------------------------------------------------------ design
VARIABLES script, pos, c, got
vars == <<script, pos, c, got>>

Scripts == UNION {[1..n -> {1, 2}] : n \in 1..MaxLen}

\* The next script entry; message i is named i.
Over(p) == pos[p] > Len(script)
Mine(p) == ~Over(p) /\ script[pos[p]] = p

Init == /\ script \in Scripts
        /\ pos = <<1, 1>> /\ c = Empty /\ got = <<<<>>, <<>>>>
        /\ (Gen => PrintT("GEN " \o ToJson([s |-> script])))

DoSend(p)  == /\ Mine(p)
              /\ c' = Send(c, p, pos[p]) /\ pos' = [pos EXCEPT ![p] = @ + 1] /\ UNCHANGED <<script, got>>
DoFlush(p) == /\ c.out[p] # <<>>
              /\ c' = Flush(c, p) /\ UNCHANGED <<script, pos, got>>
DoSpill(p) == /\ c.out[p] # <<>>
              /\ c' = Spill(c, p) /\ UNCHANGED <<script, pos, got>>
\* The end of the connection serves a reader that looks ahead.
Closed(p)  == Over(Other(p)) /\ c.out[Other(p)] = <<>>
DoRecv(p)  == /\ ~Over(p) /\ ~Mine(p) /\ c.out[p] = <<>>
              /\ c.net[p] # <<>> /\ (Len(c.net[p]) > Ahead \/ Closed(p))
              /\ got' = [got EXCEPT ![p] = Append(@, Head(c.net[p]))]
              /\ c' = Recv(c, p) /\ pos' = [pos EXCEPT ![p] = @ + 1] /\ UNCHANGED script

Ended == \A p \in {1, 2} : Over(p) /\ c.out[p] = <<>>
Next  == ~Gen /\ (\E p \in {1, 2} : DoSend(p) \/ DoFlush(p) \/ DoSpill(p) \/ DoRecv(p) \/ (Ended /\ UNCHANGED vars))
Spec  == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Exactly the other's messages, in order.
Sent(p, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : script[i] = p)
InOrder == \A p \in {1, 2} : got[p] = Sent(Other(p), pos[p] - 1)
Whole   == Ended => \A p \in {1, 2} : c.net[p] = <<>> /\ got[p] = Sent(Other(p), Len(script))
Ends    == <>Ended
=============================================================================
