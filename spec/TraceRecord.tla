------------------------------------- MODULE TraceRecord ----------------------------------
(* The recording of packets: a record is a sequence of packets, to which each packet given to *)
(* the decoder is appended, and which is then read from its beginning.  Feeding the packets   *)
(* read to a fresh decoder must produce what the original packets produced.                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          rec,     \* what was given to the recording decoder, and what it did with it
          pos,     \* number of packets already read
          bad

Same(x, y) == x.k = y.k /\ x.dv = y.dv /\ x.ak = y.ak /\ x.er = y.er


StepOK(ev) ==
  CASE ev.op = "new"    -> TRUE
    [] ev.op \in {"give", "closed"} -> TRUE
    [] ev.op = "tool"   -> ev.rc = 0 /\ ev.told = ev.want
    [] ev.op = "read"   -> pos < Len(rec) /\ Same(rec[pos + 1], ev)
    [] ev.op = "end"    -> pos = Len(rec)

Init == l = 1 /\ rec = <<>> /\ pos = 0 /\ bad = 0

Next ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
     IN /\ bad' = IF bad = 0 /\ ~StepOK(ev) THEN l ELSE bad
        /\ rec' = IF ev.op = "new" THEN <<>>
                  ELSE IF ev.op = "give" THEN Append(rec, ev) ELSE rec
        /\ pos' = IF ev.op = "new" THEN 0 ELSE IF ev.op = "read" THEN pos + 1 ELSE pos
  /\ l' = l + 1
  /\ (bad' # bad \/ l' > Len(Trace)) => PrintT("BAD " \o ToJson([C20 |-> bad']))

Spec == Init /\ [][Next]_<<l, rec, pos, bad>>

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================================
