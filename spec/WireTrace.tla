----------------------------- MODULE WireTrace -----------------------------
(* Validates recorded executions of the real protocol readers and writers  *)
(* against the machines of WireEnc and WireDec, and against the links      *)
(* below and above them: a sink that receives what a writer produces, and  *)
(* a source that delivers what a reader consumes.                          *)
(*                                                                         *)
(* A trace is [id, p, ev, srcs, fks]: the protocol, the events in order of *)
(* the calls' return, and the content and kind of end of every source.     *)
(* Error codes: 0 none, 1 io.EOF, 2 io.ErrUnexpectedEOF, 3 the error of    *)
(* the source or sink, 4 another, 5 io.ErrShortWrite, 6 the error of the   *)
(* sink's Flush method.                                                    *)
EXTENDS WireEnc, WireDec, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m
vars == <<t, i, m>>

Tr == Traces[t]
Ev == Tr.ev[i]

IsPre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

\* -------------------------------------------------------------- machines
\* live: "yes", "failed" (its sink failed) or "dead" (outside the contract).
Writer(p)       == [k |-> "w", st |-> WInit(p), buf |-> <<>>, live |-> "yes"]
Reader(p, src)  == [k |-> "r", st |-> RInit(p), src |-> src, pos |-> 0, live |-> "yes"]

Reject == [k |-> "reject"]

\* ---------------------------------------------------------------- writer
\* ev.sf is the error the sink gave during or before the call (0 none; 5 if
\* it took only a part without giving an error, which may be reported or
\* made up for),
\* ev.sl how many bytes it received since the last accounted Flush, and
\* ev.b these bytes; ev.uf counts the calls of its Flush method, ev.un is
\* ev.sl at the time of that call and ev.ff its error.
WriterCall(w, ev) ==
  LET s   == WStep(w.st, ev)
      buf == w.buf \o s.out
  IN
  IF w.live = "dead" THEN w
  ELSE IF ev.sl > Len(buf) \/ ev.uf # 0 THEN Reject
  ELSE IF s.s = "any" THEN [w EXCEPT !.live = "dead"]
  ELSE IF s.s = "bad" THEN IF ev.e # 0 THEN [w EXCEPT !.live = "dead"] ELSE Reject
  ELSE IF ev.e = 0 THEN [w EXCEPT !.st = s.w, !.buf = buf, !.live = IF ev.sf = 3 THEN "failed" ELSE @]
  ELSE IF ev.sf # 0 /\ ev.e = ev.sf THEN [w EXCEPT !.buf = buf, !.live = "failed"]
  ELSE Reject

WriterFlush(w, ev) ==
  IF w.live = "dead" THEN w
  ELSE IF ~IsPre(ev.b, w.buf) THEN Reject
  ELSE IF w.live = "failed" \/ ev.sf = 3 \/ (ev.sf = 5 /\ ev.e = 5) THEN
    IF ev.e # 0 THEN [w EXCEPT !.live = "failed", !.buf = SubSeq(@, Len(ev.b) + 1, Len(@))] ELSE Reject
  ELSE IF ev.b # w.buf THEN Reject
  ELSE IF ev.has = 1 /\ (ev.uf # 1 \/ ev.un # Len(w.buf)) THEN Reject
  ELSE IF ev.e # ev.ff THEN Reject
  ELSE [w EXCEPT !.buf = <<>>]

\* The end of the use of a sink, by Reset or by the end of the trace.
\* (ev.d bytes were delivered by Reset itself)
WriterEnd(w, ev) ==
  IF ev.d # 0 \/ (w.live # "dead" /\ ~IsPre(ev.b, w.buf)) THEN Reject
  ELSE Writer(w.st.p)

\* ---------------------------------------------------------------- reader
EndError(r, ev) ==
  LET fk == Tr.fks[r.src] IN
  IF fk # 1 THEN ev.e = fk
  ELSE IF r.pos = Len(Tr.srcs[r.src]) THEN ev.e = 1
  ELSE ev.e \in {1, 2}

\* ev.df is how much the source had delivered before it was asked last
\* during the call, -1 if it was not asked: asking again when the value is
\* completely there would stall an exchange of messages (checked where
\* Tr.ask = 1).
ReaderCall(r, ev) ==
  IF r.live = "dead" THEN r
  ELSE
  LET src == Tr.srcs[r.src]
      s   == IF ev.c = "Skip" THEN SkipVal(r.st, src, r.pos, ev.t) ELSE RStep(r.st, src, r.pos, ev)
      Dead == [r EXCEPT !.live = "dead"]
  IN
  CASE s.s = "ok" ->
         IF ev.e = 0 /\ (ev.c = "Skip" \/ \A f \in DOMAIN s.x : ev[f] = s.x[f]) /\ (Tr.ask = 1 => ev.df < s.p)
         THEN [r EXCEPT !.st = s.r, !.pos = s.p] ELSE Reject
    [] s.s = "short" -> IF EndError(r, ev) THEN Dead ELSE Reject
    [] s.s \in {"bad", "fail"} -> IF ev.e # 0 THEN Dead ELSE Reject
    [] s.s = "any" -> Dead

\* ------------------------------------------------------- header helpers
\* The compact package's functions that append a header: ev.b is what they
\* appended, ev.max the documented maximum, ev.pre whether the buffer's
\* content stayed.
HelperOk(ev) ==
  LET bytes == CASE ev.c = "HField" -> IF ev.t \in CTypes
                                       THEN CField(IF ev.t = TBOOL /\ ev.v = 1 THEN 1 ELSE CCode(ev.t), ev.id, ev.last)
                                       ELSE <<>>
                 [] ev.c = "HMap"   -> IF ev.s = Nat8(0) THEN <<0>>
                                       ELSE IF {ev.k, ev.v} \subseteq CTypes THEN CMap(ev.k, ev.v, ev.s) ELSE <<>>
                 [] ev.c = "HSet"   -> IF ev.t \in CTypes THEN CSet(ev.t, ev.s)
                                       ELSE IF ev.t = TSTOP /\ ev.s = Nat8(0) THEN <<0>> ELSE <<>>
  IN /\ ev.pre = 1
     /\ IF bytes = <<>> THEN ev.e # 0
        ELSE ev.e = 0 /\ ev.b = bytes /\ Len(ev.b) <= ev.max

\* ------------------------------------------------------- giant payloads
\* A string of ev.s bytes that is not in the trace: ev.head is what comes
\* before it, ev.ok whether it and what follows came through unchanged.
GiantHead(s) == IF Tr.p = "compact" THEN Uvarint(s) ELSE BSize(s)

\* ------------------------------------------------------------ properties
MaxDepth == 10000

\* Values returned earlier and buffers passed in keep their contents; input
\* nested to ev.depth is accepted up to the limit; memory stays bounded.
Step(x, ev) ==
  CASE ev.c = "WNew"   -> Writer(Tr.p)
    [] ev.c = "RNew"   -> Reader(Tr.p, ev.src)
    [] ev.c = "RReset" -> Reader(Tr.p, ev.src)
    [] ev.c = "Flush"  -> WriterFlush(x, ev)
    [] ev.c \in {"WReset", "WEnd"} -> WriterEnd(x, ev)
    [] ev.c = "Stable" -> IF ev.e = 0 THEN x ELSE Reject
    [] ev.c = "Same"   -> IF ev.a = ev.b THEN x ELSE Reject
    [] ev.c = "Many"   -> IF ev.e = 0 /\ ev.ok = 1 THEN x ELSE Reject
    [] ev.c = "Deep"   -> IF (ev.e = 0) = (ev.depth <= MaxDepth) THEN x ELSE Reject
    [] ev.c = "Mem"    -> IF ev.kb <= 2048 + 64 * ev.kin THEN x ELSE Reject
    [] ev.c = "Giant"  -> IF ev.ok = 1 /\ ev.head = GiantHead(ev.s) THEN x ELSE Reject
    [] ev.c \in {"HField", "HMap", "HSet"} -> IF HelperOk(ev) THEN x ELSE Reject
    [] ev.c \in {"Panic", "Crash", "Hang"} -> Reject
    [] x.k = "w" -> WriterCall(x, ev)
    [] x.k = "r" -> ReaderCall(x, ev)

Init == t \in 1..Len(Traces) /\ i = 1 /\ m = [k |-> "none"]
Next ==
  /\ i <= Len(Tr.ev)
  /\ t' = t
  /\ LET n == Step(m, Ev) IN
     IF n.k = "reject"
     THEN /\ PrintT(<<"REJECT", Tr.id, i>>)
          /\ i' = Len(Tr.ev) + 2 /\ m' = m
     ELSE /\ i' = i + 1 /\ m' = n
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
