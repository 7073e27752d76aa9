-------------------------------------- MODULE Encoder -------------------------------------
(* The sender side: one operator per call of the interface.  Each operator maps the state of  *)
(* an encoder (a record) to [st |-> new state, out |-> sequence of emitted packets].          *)
(*                                                                                            *)
(* Packets are abstract here:  [t |-> 2, id]        a source packet                           *)
(*                             [t |-> 1, id, ids]   a repair, with the sequence of encoded ids*)
(* Their bytes are specified in module Wire, the contents of repairs in module Trace.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Unlimited == -1

EncInit ==
  [ sys   |-> TRUE        \* systematic code?
  , rate  |-> 5           \* one repair every 'rate' data
  , lim   |-> Unlimited   \* maximal size of the window
  , adapt |-> FALSE       \* adaptive rate?
  , sid   |-> 0           \* identifier of the next source
  , rid   |-> 0           \* identifier of the next repair
  , win   |-> <<>>        \* identifiers of the sources which may still be repaired, increasing
  , nsrc  |-> 0           \* number of sources sent
  , nrep  |-> 0           \* number of repairs sent
  , nack  |-> 0           \* number of acks received
  , sent  |-> 0           \* number of packets sent since the last ack
  ]

\* Make room for one more source: only the oldest ones are evicted.
Evict(e) ==
  IF e.lim = Unlimited \/ Len(e.win) < e.lim THEN e
  ELSE [e EXCEPT !.win = SubSeq(e.win, Len(e.win) - e.lim + 2, Len(e.win))]

EmitSource(e) ==
  [ st  |-> [e EXCEPT !.nsrc = @ + 1, !.sent = @ + 1]
  , out |-> <<[t |-> 2, id |-> e.win[Len(e.win)]]>> ]

\* A repair encodes the whole current window; there's nothing to repair if it's empty.
EncRepair(e) ==
  IF e.win = <<>> THEN [st |-> e, out |-> <<>>]
  ELSE [ st  |-> [e EXCEPT !.rid = @ + 1, !.nrep = @ + 1, !.sent = @ + 1]
       , out |-> <<[t |-> 1, id |-> e.rid, ids |-> e.win]>> ]

EncData(e) ==
  LET e1 == [Evict(e) EXCEPT !.win = Append(@, e.sid)]
      r1 == IF e.sys THEN EmitSource(e1) ELSE EncRepair(e1)
      r2 == IF (e.sid + 1) % e.rate = 0 THEN EncRepair(r1.st) ELSE [st |-> r1.st, out |-> <<>>]
  IN [st |-> [r2.st EXCEPT !.sid = @ + 1], out |-> r1.out \o r2.out]

\* n data at once, for long sessions; the emitted packets aren't listed.
EncBulk(e, n) ==
  LET last == e.sid + n - 1
      all  == e.win \o [i \in 1..n |-> e.sid + i - 1]
      nr   == ((e.sid + n) \div e.rate) - (e.sid \div e.rate) + (IF e.sys THEN 0 ELSE n)
      ns   == IF e.sys THEN n ELSE 0
  IN [e EXCEPT !.sid  = last + 1,
               !.win  = IF e.lim = Unlimited \/ Len(all) <= e.lim THEN all
                        ELSE SubSeq(all, Len(all) - e.lim + 1, Len(all)),
               !.nsrc = @ + ns,
               !.rid  = @ + nr,
               !.nrep = @ + nr,
               !.sent = @ + ns + nr]

(* The rates which are acceptable after an ack reporting nb packets received out of sent:     *)
(* 50 under 1% of losses, ceil(1 / (2 * loss)) otherwise.  The code computes this quotient    *)
(* with floating point numbers: the only exact quotient for which 1 / (lost / sent) is rounded*)
(* above its value is sent / lost = 98, for which both 49 (exact) and 50 are accepted.        *)
CeilDiv(a, b) == (a + b - 1) \div b

AdaptiveRates(sent, nb) ==
  LET lost == sent - nb
  IN IF sent = 0 \/ lost <= 0 \/ lost * 100 < sent THEN {50}
     ELSE {CeilDiv(sent, 2 * lost)} \cup (IF sent = 98 * lost THEN {50} ELSE {})

\* Drop the sources listed in an ack, which reports nb received packets.  'rate' is the new rate,
\* one of EncAckRates.
EncAckRates(e, nb) == IF e.adapt THEN AdaptiveRates(e.sent, nb) ELSE {e.rate}

EncAck(e, ids, rate) ==
  [e EXCEPT !.nack = @ + 1,
            !.rate = rate,
            !.sent = 0,
            !.win  = LET S == TLCEval(ids)
                     IN IF Cardinality(S) = 0 THEN @ ELSE SelectSeq(@, LAMBDA x : x \notin S)]

\* A truncated ack is only counted.
EncBadAck(e) == [e EXCEPT !.nack = @ + 1]
============================================================================================
