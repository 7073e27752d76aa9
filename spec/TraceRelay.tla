------------------------------------ MODULE TraceRelay ------------------------------------
(* Checks traces of the real tools against the specification.                                 *)
EXTENDS Relay, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, s, m, bad

vars == <<l, s, m, bad>>

\* m: the parameters of the current tool, s: its state.
Drops(d, k, drop) ==   \* is this decision allowed?
  CASE m.model = "file" -> drop = FileDrops(IF d = "ab" THEN m.la ELSE m.lb, k)
    [] m.model = "forward" -> ~drop
    [] OTHER -> TRUE

\* The first i datagrams of direction d are decided: only the last one is forwarded, if it's known
\* to be ('last').
RECURSIVE DecideUpTo(_, _, _, _)
DecideUpTo(st, d, i, last) ==
  IF i = 0 THEN [st |-> st, ok |-> TRUE]
  ELSE LET drop == i > 1 \/ ~last
           r    == DecideUpTo(RelayDecide(st, d, drop), d, i - 1, last)
       IN [r EXCEPT !.ok = @ /\ Drops(d, st.n[d] + 1, drop)]

Position(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0

Same == [st |-> s, ok |-> TRUE]
Wrong == [st |-> s, ok |-> FALSE]

Step(ev) ==
  CASE ev.op = "start" -> [st |-> RelayInit, ok |-> TRUE]
    [] ev.op = "in"    -> [st |-> RelayIn(s, ev.d, ev.x, ev.n, ev.from), ok |-> TRUE]
    \* A packet given to the forwarder: only genuine sources are of interest.
    [] ev.op = "pkt"   -> [st |-> IF ev.src = 1 THEN RelayIn(s, "ab", ev.x, 1, 0) ELSE s, ok |-> TRUE]
    \* x: the datagram which has exactly these bytes (0: none)
    [] ev.op = "out"   -> LET i == Position(s.q[ev.d], ev.x)
                          IN IF i = 0 THEN Wrong
                             ELSE LET r == DecideUpTo(s, ev.d, i, TRUE)
                                  IN [r EXCEPT !.ok = @ /\ (ev.d = "ba" => ev.to = s.to)]
    \* Everything given so far was handled.
    [] ev.op = "sync"  -> DecideUpTo(s, ev.d, Len(s.q[ev.d]), FALSE)
    [] ev.op = "report" -> [st |-> s, ok |-> /\ ev.la = s.lost["ab"] /\ ev.lb = s.lost["ba"]
                                             /\ ev.ta = s.n["ab"] /\ ev.tb = s.n["ba"]]
    [] ev.op = "stat"  -> [st |-> s, ok |->
                             IF m.model = "uniform" THEN UniformOK(s, "ab", m.p[1]) /\ UniformOK(s, "ba", m.p[2])
                             ELSE BurstOK(s, "ab", m.p[1], m.p[2]) /\ BurstOK(s, "ba", m.p[3], m.p[4])]
    [] ev.op = "dead"  -> Wrong

Init == l = 1 /\ s = RelayInit /\ m = [model |-> "none"] /\ bad = [p \in {"C22", "C23"} |-> 0]

Next ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         r  == Step(ev)
         n  == IF ev.op = "start" THEN ev ELSE m
         p  == IF n.model = "forward" THEN "C23" ELSE "C22"
     IN /\ s' = r.st
        /\ m' = n
        /\ bad' = [bad EXCEPT ![p] = IF @ = 0 /\ ~r.ok THEN l ELSE @]
  /\ l' = l + 1
  /\ (bad' # bad \/ l' > Len(Trace)) => PrintT("BAD " \o ToJson(bad'))

Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================================
