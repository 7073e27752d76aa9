------------------------------------ MODULE TraceFaults ------------------------------------
(* Checks traces of calls in which an allocation failed against the specification.            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

F == INSTANCE Faults WITH MaxData <- 0, Rate <- 1, pc <- "idle", k <- 0, nid <- 0, window <- <<>>,
                          sent <- {}, reps <- {}, er <- 0, oom <- 0

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, started, bad
vars == <<l, started, bad>>

OK(ev) ==
  CASE ev.op = "start"   -> ~started
    \* The call in which an allocation failed.
    [] ev.op = "new"     -> F!NewOK(ev.oom, ev.null, ev.left)
    [] ev.op = "use"     -> F!UseOK(ev.oom, ev.er, ev.same)
    \* Then, an encoder still works: sources are well formed, each one has its own identifier...
    [] ev.op = "again"   -> ev.er = 0 /\ ev.good = 1 /\ ev.fresh = 1
    \* ... and what is lost can be repaired.
    [] ev.op = "recover" -> ev.ok = 1
    \* A data or a packet which can't be resized is left as it was.
    [] ev.op = "kept"    -> ev.ok = 1
    \* Everything was deleted.
    [] ev.op = "end"     -> started /\ ev.left = 0
    [] ev.op = "dead"    -> FALSE

Init == l = 1 /\ started = FALSE /\ bad = [p \in {"C24"} |-> 0]

Next ==
  /\ l <= Len(Trace)
  /\ bad' = [bad EXCEPT !["C24"] = IF @ = 0 /\ ~OK(Trace[l]) THEN l ELSE @]
  /\ started' = CASE Trace[l].op = "start" -> TRUE [] Trace[l].op \in {"end", "dead"} -> FALSE [] OTHER -> started
  /\ l' = l + 1
  /\ (bad' # bad \/ l' > Len(Trace)) => PrintT("BAD " \o ToJson(bad'))

Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================================
