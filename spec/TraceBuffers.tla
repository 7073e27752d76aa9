------------------------------------ MODULE TraceBuffers ----------------------------------
(* Checks a record of operations on real containers against module Buffers.                   *)
EXTENDS Buffers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, b, bad

Shown == 48     \* number of bytes which are shown at each end of long containers

\* Position in the container of the i-th shown byte.
Position(n, i) == IF n <= 2 * Shown \/ i <= Shown THEN i ELSE n - 2 * Shown + i

ShownOK(q, o) ==
  /\ o.ok = 1 /\ o.al = 0
  /\ o.n = Len(q)
  /\ \A i \in 1..Len(o.c) : LET x == q[Position(o.n, i)] IN x = Undef \/ x = o.c[i]

\* Bytes which weren't initialised have whatever value was seen.
Settled(q, o) ==
  IF \A i \in 1..Len(o.c) : q[Position(o.n, i)] # Undef THEN q
  ELSE [k \in 1..Len(q) |->
          IF q[k] # Undef THEN q[k]
          ELSE IF o.n <= 2 * Shown \/ k <= Shown THEN o.c[k]
          ELSE IF k > o.n - Shown THEN o.c[k - o.n + 2 * Shown] ELSE Undef]

StepOK(b1, ev) ==
  /\ ev.err = 0
  /\ {ev.obs[i].s : i \in 1..Len(ev.obs)} = DOMAIN b1
  /\ \A i \in 1..Len(ev.obs) : ShownOK(b1[ev.obs[i].s], ev.obs[i])

\* What's really there, in order to go on after a divergence.
Observed(ev) ==
  [x \in {ev.obs[i].s : i \in 1..Len(ev.obs)} |->
     LET i == CHOOSE k \in 1..Len(ev.obs) : ev.obs[k].s = x
         o == ev.obs[i]
     IN IF o.n <= 2 * Shown /\ Len(o.c) = o.n THEN o.c ELSE Fill(IF o.n > 70000 THEN 0 ELSE o.n, Undef)]

Init == l = 1 /\ b = <<>> /\ bad = 0

Next ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         b1 == TLCEval(IF ev.op = "failed" THEN b ELSE Apply(b, ev))
         ok == StepOK(b1, ev)
     IN /\ bad' = IF bad = 0 /\ ~ok THEN l ELSE bad
        /\ b' = IF ~ok THEN Observed(ev)
                ELSE [x \in DOMAIN b1 |->
                        LET i == CHOOSE k \in 1..Len(ev.obs) : ev.obs[k].s = x
                        IN Settled(b1[x], ev.obs[i])]
  /\ l' = l + 1
  /\ (bad' # bad \/ l' > Len(Trace)) => PrintT("BAD " \o ToJson([C19 |-> bad']))

Spec == Init /\ [][Next]_<<l, b, bad>>

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================================
