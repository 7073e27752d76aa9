------------------------------------ MODULE TraceNetcode ----------------------------------
(* Checks a trace recorded from the real code against the specification.                      *)
(*                                                                                            *)
(* A trace is a sequence of calls, with everything that was observable: packets given to the  *)
(* packet handlers, data given to the data handler, returned values, errors, statistics.      *)
(* Several sessions (an encoder and a decoder) may follow one another, or be interleaved.     *)
(* For each line, the specification computes what must have been observed; each divergence is *)
(* attributed to the properties it breaks.  'bad' gives, for each property, the first line    *)
(* that breaks it.                                                                            *)
EXTENDS Encoder, Decoder, Wire, Combination, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

Props == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
          "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}

VARIABLES l, s, bad

MaxAlts == 24

Rng(q) == {q[i] : i \in 1..Len(q)}
Unless(cond, labels) == IF cond THEN {} ELSE labels

--------------------------------------------------------------------------------------------
(* State of a session. *)

NewSession(ev) ==
  [ w     |-> ev.w, ord |-> ev.ord = 1, api |-> ev.api
  , enc   |-> EncInit
  , alts  |-> {DecInit(ev.w, ev.ord = 1)}   \* the possible states of the decoder
  , amb   |-> FALSE                          \* too many possible states: predictions are off
  , off   |-> FALSE                          \* predictions were wrong once: no more predictions
  , ack   |-> AckInit(ev.now)
  , now   |-> ev.now
  , lines |-> <<>>      \* for data in the window: the line where they were submitted (none: bulk)
  , dset  |-> {}        \* delivered
  , top   |-> -1        \* last delivered, when in order
  , evct  |-> FALSE     \* was some data evicted?
  , w0    |-> {}        \* the window at the beginning of the last phase
  , over  |-> FALSE
  ]

Idle == [NewSession([w |-> 8, ord |-> 0, api |-> 0, now |-> 0]) EXCEPT !.over = TRUE]

\* The content of a data: its size and a sample of its bytes.
Content(st, lines, id) ==
  IF id \notin DOMAIN lines
  THEN [n |-> 4, s |-> <<id % 256, (id \div 256) % 256, (id \div 65536) % 256, id \div 16777216>>]
  ELSE [n |-> Trace[lines[id]].n, s |-> Trace[lines[id]].c]

--------------------------------------------------------------------------------------------
(* Packets emitted by the encoder: x is the sequence of expected packets. *)

TypeOf(k) == IF k.h = <<>> THEN -1 ELSE k.h[1]

CheckSource(st, lines, x, k) ==
  LET p == Parse(k)
      c == Content(st, lines, x.id)
  IN IF ~p.ok THEN {"C14", "C10"}
     ELSE Unless(p.id = x.id, {"C10"})
          \cup Unless(p.n = c.n /\ k.s = c.s, {"C10", "C14"})

CheckRepair(st, lines, x, k) ==
  LET p == Parse(k)
  IN IF ~p.ok THEN {"C14", "C09"}
     ELSE Unless(p.id = x.id, {"C09"})
          \cup (IF p.ids # x.ids THEN {"C08", "C09", "C14"}
                ELSE LET src == TLCEval([i \in 1..Len(x.ids) |->
                                   LET c == Content(st, lines, x.ids[i])
                                   IN [c |-> Coef(st.w, p.id, x.ids[i]), n |-> c.n, s |-> c.s]])
                     IN Unless(p.n = Max({src[i].n : i \in 1..Len(src)}), {"C09"})
                        \cup Unless(CombinationOK(st.w, src, k.s), {"C09"})
                        \cup Unless(p.es = EncodedSize(st.w, src), {"C09", "C14"}))

CheckEmitted(st, lines, x, eo) ==
  Unless(\A i \in 1..Len(eo) : Parse(eo[i]).ok, {"C14"})
  \cup (IF Len(x) # Len(eo) \/ \E i \in 1..Len(x) : x[i].t # TypeOf(eo[i])
        THEN {"C10"}
        ELSE UNION { IF x[i].t = 2 THEN CheckSource(st, lines, x[i], eo[i])
                                   ELSE CheckRepair(st, lines, x[i], eo[i]) : i \in 1..Len(x) })

\* What can be asked to the encoder.
CheckEncGetters(e, g) ==
  Unless(g[1] = Len(e.win), {"C08", "C16"})
  \cup Unless(g[2] = e.nack /\ g[3] = e.nrep /\ g[4] = e.nsrc, {"C16"})
  \cup Unless(g[5] = e.rate, {"C10", "C11"})
  \cup Unless(g[6] = e.lim, {"C08"})
  \cup Unless((g[7] = 1) = e.sys, {"C10"})
  \cup Unless((g[8] = 1) = e.adapt, {"C11"})

CheckAckGetters(a, g) ==
  Unless(g[12] = a.nrep /\ g[13] = a.nsrc /\ g[14] = a.nack, {"C16"})
  \cup Unless(g[16] = a.period /\ g[17] = a.nb, {"C12"})

\* What can be asked to the decoder, when it's in state d.
DecGettersOK(d, g) ==
  g[9] = d.nd /\ g[10] <= d.nf /\ g[11] = Cardinality(Missing(d)) /\ g[15] = d.nu

CheckDecGetters(st, g) ==
  IF st.amb \/ st.off THEN {} ELSE Unless(\E d \in st.alts : DecGettersOK(d, g), {"C16"})

\* Calls that emit nothing, deliver nothing.
Silent(ev) == /\ ev.eo = <<>> /\ ev.do = <<>> /\ ev.dv = <<>>
NoOutput(ev) ==
  Unless(ev.eo = <<>>, {"C10"}) \cup Unless(ev.do = <<>>, {"C12"})
  \cup Unless(ev.dv = <<>>, {"C02", "C04"})

--------------------------------------------------------------------------------------------
(* Deliveries: what can be said without any prediction. *)

Ids(dv) == [i \in 1..Len(dv) |-> dv[i][1]]

CheckDeliveries(st, dv) ==
  LET q == Ids(dv)
  IN Unless(\A i \in 1..Len(q) : q[i] >= 0 /\ q[i] < st.enc.sid, {"C01"})
     \cup Unless(\A i \in 1..Len(q) : q[i] >= 0 =>
                   /\ q[i] \notin st.dset
                   /\ \A j \in 1..(i - 1) : q[j] # q[i], {"C02"})
     \cup Unless(\A i \in 1..Len(q) : st.ord /\ q[i] >= 0 =>
                   /\ q[i] > st.top
                   /\ \A j \in 1..(i - 1) : q[j] < q[i], {"C03"})
     \cup Unless(\A i \in 1..Len(dv) : dv[i][2] = 0, {"C18"})

Delivered(st, dv) ==
  LET q == Rng(Ids(dv)) \ {-1}
  IN [st EXCEPT !.dset = @ \cup q, !.top = IF q = {} \/ Max(q) < @ THEN @ ELSE Max(q)]

SameDelivery(st, dl, q) == IF st.ord THEN dl = q ELSE Len(dl) = Len(q) /\ Rng(dl) = Rng(q)

(* Predictions: r is a predicted result, from state d, p is the received packet. *)
Attribute(st, d, r, q, p) ==
  LET want    == Rng(r.dl)
      have    == Rng(q) \ {-1}
      lacking == want \ have
      extra   == have \ want
      direct  == d.known \cup (IF p.t = 2 THEN {p.id} ELSE {})
      stale   == IF p.t = 2 THEN Stale(d, p.id) ELSE Stale(d, p.ids[1])
  IN (IF lacking \cap direct # {} THEN {"C04"} ELSE {})
     \cup (IF st.ord /\ lacking \cap direct # {} THEN {"C03"} ELSE {})
     \cup (IF lacking \cap direct # {} /\ r.st.hz # None THEN {"C17"} ELSE {})
     \cup (IF lacking \ direct # {} THEN {"C05", "C04"} ELSE {})
     \cup (IF stale /\ q # <<>> THEN {"C17"} ELSE {})
     \cup (IF \E x \in extra : x < r.st.hz /\ x \notin d.known THEN {"C17"} ELSE {})
     \cup (IF st.ord /\ extra # {} THEN {"C03"} ELSE {})

\* Whatever was delivered is known.
Resync(r, q) ==
  [r EXCEPT !.st = LET S == {x \in Rng(q) \ {-1} : x >= r.st.hz}
                       n == Learn(r.st, S)
                   IN IF n.ord THEN [n EXCEPT !.next = IF S = {} \/ Max(S) < @ THEN @ ELSE Max(S) + 1]
                      ELSE n]

\* An ack sent automatically during the reception which led from state d to state f.
AckBetween(d, f, ids) == /\ ids \subseteq (d.known \cup f.known)
                         /\ (d.known \cap f.known) \subseteq ids

CheckAutoAck(st, a1, ev, pairs) ==
  LET due == ev.dv # <<>> /\ AckDue(a1, st.now)
      n   == Len(ev.do)
  IN Unless(n = IF due THEN 1 ELSE 0, {"C12"})
     \cup UNION { LET p == Parse(ev.do[i]) IN
                  IF ~p.ok \/ p.t # 0 THEN {"C07", "C14"}
                  ELSE Unless(p.nb = (IF i = 1 THEN a1.cnt ELSE 0), {"C07"})
                       \cup Unless(st.amb \/ st.off \/ \E x \in pairs : AckBetween(x.d, x.r.st, Rng(p.ids))
                                  , {"C07"})
                  : i \in 1..n }

ReceivePacket(st, ev, p) ==
  LET a1    == AckCount(st.ack, p.t)
      a2    == IF ev.do = <<>> THEN a1
               ELSE [AckAuto(a1, st.now) EXCEPT !.nack = st.ack.nack + Len(ev.do)]
      q     == Ids(ev.dv)
      R(d)  == IF p.t = 2 THEN DecSource(d, p.id) ELSE DecRepair(d, p.id, Rng(p.ids))
      all   == UNION {{[d |-> d, r |-> r] : r \in R(d)} : d \in st.alts}
      match == {x \in all : SameDelivery(st, x.r.dl, q)}
      pairs == IF match # {} THEN match
               ELSE {[d |-> x.d, r |-> Resync(x.r, q)] : x \in all}
      good  == {x \in pairs : DecGettersOK(x.r.st, ev.g)}
      keep  == IF good # {} THEN good ELSE pairs
      alts1 == {x.r.st : x \in keep}
      one   == CHOOSE x \in all : TRUE
      v     == IF st.amb \/ st.off THEN {}
               ELSE IF match = {}
               THEN Attribute(st, one.d, one.r, q, p)
                    \cup (IF st.ord /\ q # <<>>
                          THEN Unless( \E x \in pairs : \A y \in (st.top + 1)..Max(Rng(q)) :
                                         y \in Rng(q) \/ y < x.r.st.hz
                                     , {"C03"})
                          ELSE {})
               ELSE IF good = {}
               THEN LET more == \A x \in pairs : ev.g[11] > Cardinality(Missing(x.r.st))
                    IN {"C16"} \cup (IF more THEN {"C05"} ELSE {})
                       \cup (IF p.t = 1 /\ (more \/ \A x \in pairs : Stale(x.d, p.ids[1]))
                             THEN {"C17"} ELSE {})
               ELSE {}
      st1   == [Delivered(st, ev.dv) EXCEPT
                  !.alts = IF st.amb THEN st.alts ELSE alts1,
                  !.amb  = @ \/ Cardinality(alts1) > MaxAlts,
                  !.off  = @ \/ match = {},
                  !.ack  = a2]
  IN [ s |-> st1
     , v |-> v \cup CheckDeliveries(st, ev.dv) \cup CheckAutoAck(st, a1, ev, pairs)
             \cup Unless(ev.er = 0, {"C13", "C14"})
             \cup Unless(ev.rd = p.len, {"C14"})
             \cup Unless(ev.eo = <<>>, {"C10"}) ]

\* The encoder emitted something which isn't a packet: nothing can be predicted.
ReceiveGarbage(st, ev) ==
  [ s |-> [Delivered(st, ev.dv) EXCEPT !.amb = TRUE,
             !.ack = [@ EXCEPT !.nsrc = ev.g[13], !.nrep = ev.g[12], !.nack = ev.g[14],
                               !.cnt = @ + 1]]
  , v |-> CheckDeliveries(st, ev.dv) ]

--------------------------------------------------------------------------------------------
(* One operator per kind of line. Each one gives [s |-> new state, v |-> broken properties].  *)

StepData(st, ev) ==
  LET r     == EncData(st.enc)
      lines == [i \in {j \in DOMAIN st.lines : j >= Head(r.st.win)} \cup {st.enc.sid} |->
                  IF i = st.enc.sid THEN l ELSE st.lines[i]]
  IN [ s |-> [st EXCEPT !.enc = r.st, !.lines = TLCEval(lines),
                        !.evct = @ \/ Len(r.st.win) <= Len(st.enc.win)]
     , v |-> CheckEmitted(st, lines, r.out, ev.eo)
             \cup Unless(st.enc.lim = Unlimited \/ ev.g[1] <= st.enc.lim, {"C08"})
             \cup Unless(ev.do = <<>>, {"C12"}) \cup Unless(ev.dv = <<>>, {"C02"}) ]

StepBulk(st, ev) ==
  LET e1 == EncBulk(st.enc, ev.n)
  IN [ s |-> [st EXCEPT !.enc = e1,
                        !.evct = @ \/ Len(e1.win) < Len(st.enc.win) + ev.n]
     , v |-> {} ]

StepRep(st, ev) ==
  LET r == EncRepair(st.enc)
  IN [ s |-> [st EXCEPT !.enc = r.st]
     , v |-> CheckEmitted(st, st.lines, r.out, ev.eo)
             \cup Unless(ev.do = <<>>, {"C12"}) \cup Unless(ev.dv = <<>>, {"C02"}) ]

\* An ack p reaches the encoder.
EncoderAck(st, ev, p) ==
  LET rates == EncAckRates(st.enc, p.nb)
      e1    == EncAck(st.enc, Rng(p.ids), IF ev.g[5] \in rates THEN ev.g[5] ELSE CHOOSE r \in rates : TRUE)
  IN [ s |-> [st EXCEPT !.enc = e1]
     , v |-> Unless(ev.g[5] \in rates, {"C11"})
             \cup Unless(ev.g[1] = Len(e1.win), {"C07", "C08"})
             \cup Unless(ev.er = 0, {"C13", "C14"})
             \cup Unless(ev.rd = p.len, {"C14"})
             \cup NoOutput(ev) ]

\* A truncated packet.
StepCut(st, ev, ty) ==
  [ s |-> IF ty = 0 THEN [st EXCEPT !.enc = EncBadAck(@)] ELSE [st EXCEPT !.ack = AckCount(@, ty)]
  , v |-> Unless(ev.er = 2 /\ Silent(ev), {"C13"}) ]

StepFwd(st, ev) ==
  LET k == Trace[ev.pl].eo[ev.pp]
      p == Parse(k)
  IN IF ev.cut > 0 THEN StepCut(st, ev, TypeOf(k))
     ELSE IF ~p.ok \/ p.t = 0 \/ (p.t = 1 /\ p.ids = <<>>) THEN ReceiveGarbage(st, ev)
     ELSE LET r == ReceivePacket(st, ev, p)
          \* Through dispatching: a wrong route shows.
          IN IF ev.via = 1 /\ ev.er # 0 THEN [r EXCEPT !.v = @ \cup {"C13"}] ELSE r

StepFba(st, ev) ==
  LET p == Parse(Trace[ev.pl].do[ev.pp])
  IN IF ev.cut > 0 THEN StepCut(st, ev, 0)
     ELSE IF ~p.ok THEN [s |-> [st EXCEPT !.enc.nack = ev.g[2]], v |-> {"C14"}]
     ELSE EncoderAck(st, ev, p)

StepFack(st, ev) == EncoderAck(st, ev, Parse(ev.p))

\* A packet of the wrong type.
StepWrong(st, ev) ==
  [ s |-> st, v |-> Unless(ev.er = 1 /\ ev.ep = 1 /\ Silent(ev), {"C13"}) ]

StepAck(st, ev) ==
  LET a1 == AckForced(st.ack)
  IN [ s |-> [st EXCEPT !.ack = a1]
     , v |-> IF Len(ev.do) # 1 THEN {"C07"}
             ELSE LET p == Parse(ev.do[1]) IN
                  IF ~p.ok \/ p.t # 0 THEN {"C07", "C14"}
                  ELSE Unless(p.nb = st.ack.cnt, {"C07"})
                       \cup (IF st.amb \/ st.off THEN {}
                             ELSE Unless(\E d \in st.alts : Rng(p.ids) = d.known, {"C07", "C14"})
                                  \cup Unless(\A i \in Rng(p.ids) : \E d \in st.alts : i >= d.hz
                                             , {"C17"}))
             \cup Unless(ev.eo = <<>>, {"C10"}) \cup Unless(ev.dv = <<>>, {"C02"}) ]

StepSet(st, ev) ==
  [ s |-> CASE ev.k = "rate"  -> [st EXCEPT !.enc.rate = ev.v]
            [] ev.k = "lim"   -> [st EXCEPT !.enc.lim = ev.v]
            [] ev.k = "sys"   -> [st EXCEPT !.enc.sys = ev.v = 1]
            [] ev.k = "adapt" -> [st EXCEPT !.enc.adapt = ev.v = 1]
            [] ev.k = "nb"    -> [st EXCEPT !.ack = AckSetNb(@, ev.v)]
            [] ev.k = "per"   -> [st EXCEPT !.ack.period = ev.v]
  , v |-> NoOutput(ev) ]

StepTime(st, ev) == [s |-> [st EXCEPT !.now = ev.now], v |-> NoOutput(ev)]

\* Many data, with a window of one data, each of which yields at least a repair; everything is received.
StepStream(st, ev) ==
  LET n    == ev.n
      k    == st.enc.sid
      e1   == EncBulk(st.enc, n)
      last == k + n - 1
      reps == e1.nrep - st.enc.nrep
      srcs == e1.nsrc - st.enc.nsrc
      d    == CHOOSE x \in st.alts : TRUE
      d1   == [d EXCEPT !.hz = last, !.known = {last}, !.rows = <<>>, !.next = IF d.ord THEN last + 1 ELSE @,
                        !.nd = @ + (n - srcs), !.nu = @ + (reps - (n - srcs))]
      a1   == AckStream([st.ack EXCEPT !.nsrc = @ + srcs, !.nrep = @ + reps], n, (srcs + reps) \div n)
      a2   == IF a1.nack = st.ack.nack THEN a1 ELSE [a1 EXCEPT !.last = st.now]
      fits == /\ ~st.amb /\ ~st.off /\ Cardinality(st.alts) = 1 /\ d.rows = <<>> /\ d.hz <= k
              /\ st.enc.lim = 1 /\ st.ack.period = 0
              /\ (srcs + reps) % n = 0 /\ reps >= n
              /\ d.ord => d.next = k
  IN IF ~fits THEN Assert(FALSE, "stream")
     ELSE [ s |-> [st EXCEPT !.enc = e1, !.alts = {d1}, !.ack = a2, !.evct = TRUE,
                             !.dset = @ \cup (k..last), !.top = last]
          , v |-> Unless(ev.tot[1] = srcs + reps, {"C10"})
                  \cup Unless(ev.tot[2] = a1.nack - st.ack.nack, {"C12"})
                  \cup Unless(ev.tot[3] <= n, {"C02"})
                  \cup Unless(ev.tot[3] >= n, {"C04"} \cup (IF st.enc.sys THEN {} ELSE {"C05"})
                                               \cup (IF st.ord THEN {"C03"} ELSE {}))
                  \cup Unless(ev.tot[4] = 0, {"C13", "C14"})
                  \cup Unless(ev.tot[3] # n \/ (ev.tot[5] = k /\ ev.tot[6] = last /\ ev.tot[7] = 0)
                             , IF ev.tot[6] = -1 THEN {"C01"} ELSE {"C01", "C02"})
                  \cup Unless(ev.tot[8] = 0, {"C18"})
                  \cup Unless(ev.tot[9] = 0, {"C14"}) ]

\* The last operation, n times again. The event describes the last time.
StepAgain(st, ev) ==
  LET n == ev.n
  IN CASE ev.k = "rep" ->
            LET none == st.enc.win = <<>>
                st1  == IF none THEN st
                        ELSE [st EXCEPT !.enc.rid = @ + n - 1, !.enc.nrep = @ + n - 1, !.enc.sent = @ + n - 1]
                r    == StepRep(st1, ev)
            IN [r EXCEPT !.v = @ \cup Unless(ev.tot = <<IF none THEN 0 ELSE n, 0, 0, 0>>, {"C10"})]
       [] ev.k = "ack" ->
            LET st1 == IF n = 1 THEN st ELSE [st EXCEPT !.ack.nack = @ + n - 1, !.ack.cnt = 0]
                r   == StepAck(st1, ev)
            IN [r EXCEPT !.v = @ \cup Unless(ev.tot = <<0, n, 0, 0>>, {"C07"})]
       [] ev.k = "fba" ->
            LET p == Parse(Trace[ev.pl].do[ev.pp])
                st1 == IF n = 1 THEN st
                       ELSE [st EXCEPT !.enc = [EncAck(@, Rng(p.ids), IF @.adapt THEN 50 ELSE @.rate)
                                                  EXCEPT !.nack = @ + n - 2]]
                r   == EncoderAck(st1, ev, p)
            IN IF ~p.ok THEN [s |-> [st EXCEPT !.enc.nack = ev.g[2]], v |-> {"C14"}]
               ELSE [r EXCEPT !.v = @ \cup Unless(ev.tot = <<0, 0, 0, 0>>, {"C07"})]
       [] ev.k = "fwd" ->
            LET p == Parse(Trace[ev.pl].eo[ev.pp])
                old(d)     == IF p.t = 2 THEN p.id \in d.known \/ Stale(d, p.id)
                              ELSE Stale(d, p.ids[1]) \/ p.id \in DOMAIN d.rows
                useless(d) == p.t = 1 /\ ~Stale(d, p.ids[1]) /\ Rng(p.ids) \subseteq d.known
                st1 == [st EXCEPT !.ack.cnt  = @ + n - 1,
                                  !.ack.nsrc = IF p.t = 2 THEN @ + n - 1 ELSE @,
                                  !.ack.nrep = IF p.t = 1 THEN @ + n - 1 ELSE @,
                                  !.amb  = @ \/ \E d \in st.alts : ~old(d) /\ ~useless(d),
                                  !.alts = {IF useless(d) THEN [d EXCEPT !.nu = @ + n - 1] ELSE d : d \in @}]
                r   == ReceivePacket(st1, ev, p)
            IN IF ~p.ok \/ p.t = 0 \/ (p.t = 1 /\ p.ids = <<>>)
               THEN [ReceiveGarbage(st, ev) EXCEPT !.s.ack.cnt = @ + n - 1]
               ELSE [r EXCEPT !.v = @ \cup Unless(ev.tot[1] = 0, {"C10"}) \cup Unless(ev.tot[2] = 0, {"C12"})
                                     \cup Unless(ev.tot[3] = 0, {"C02"}) \cup Unless(ev.tot[4] = 0, {"C13", "C14"})]

\* The beginning of a phase without losses.
StepDrain(st, ev) == [s |-> [st EXCEPT !.w0 = Rng(st.enc.win)], v |-> NoOutput(ev)]

\* Its end, after ev.n exchanges.
StepEnd(st, ev) ==
  LET span  == IF st.w0 = {} THEN 0 ELSE Max(st.w0) - Min(st.w0) + 1
      bound == IF st.w = 4 THEN 15 ELSE IF st.w = 8 THEN 255 ELSE 65535
      \* The specification says that everything could be decoded
      able  == ~st.amb /\ \A d \in st.alts : st.w0 \subseteq (st.dset \cup d.known)
      concl == able \/ (ev.n >= bound /\ span <= bound)
  IN [ s |-> [st EXCEPT !.w0 = {}]
     , v |-> IF ~concl THEN {}
             ELSE Unless(/\ ev.g[1] = 0
                         /\ st.w0 \subseteq st.dset
                         /\ ~st.evct => (0..(st.enc.sid - 1)) \subseteq st.dset, {"C06"}) ]

Step(st, ev) ==
  CASE ev.op = "new"   -> [s |-> NewSession(ev), v |-> NoOutput(ev)]
    [] ev.op = "data"  -> StepData(st, ev)
    [] ev.op = "bulk"  -> StepBulk(st, ev)
    [] ev.op = "stream" -> StepStream(st, ev)
    [] ev.op = "again" -> StepAgain(st, ev)
    [] ev.op = "rep"   -> StepRep(st, ev)
    [] ev.op = "fwd"   -> StepFwd(st, ev)
    [] ev.op = "fba"   -> StepFba(st, ev)
    [] ev.op = "fack"  -> StepFack(st, ev)
    [] ev.op \in {"mis", "unk"} -> StepWrong(st, ev)
    [] ev.op = "ack"   -> StepAck(st, ev)
    [] ev.op = "set"   -> StepSet(st, ev)
    [] ev.op = "time"  -> StepTime(st, ev)
    [] ev.op = "drain" -> StepDrain(st, ev)
    [] ev.op = "end"   -> StepEnd(st, ev)

--------------------------------------------------------------------------------------------
(* The second implementation driven with the same calls: the C interface (api = 1), or a twin *)
(* which is not given the bad packets (api = 2).                                              *)

IsBad(ev) == ev.op \in {"mis", "unk"} \/ (ev.op \in {"fwd", "fba"} /\ ev.cut > 0)

SizesAndIds(dv) == [i \in 1..Len(dv) |-> <<dv[i][1], dv[i][3]>>]
\* An ack without its number of packets
AckIds(k) == IF Len(k.h) < 3 THEN k ELSE [k EXCEPT !.h = SubSeq(k.h, 4, Len(k.h))]

CheckSecond(st, ev) ==
  IF ev.x.on = 0 THEN {}
  ELSE IF st.api = 1
  THEN Unless( /\ ev.x.eo = ev.eo /\ ev.x.do = ev.do
               /\ SizesAndIds(ev.x.dv) = SizesAndIds(ev.dv)
               /\ ev.x.rd = ev.rd /\ ev.x.er = ev.er /\ ev.x.fr = ev.fr
               /\ ev.x.g[1] = ev.g[1]
             , {"C15"})
       \cup Unless(\A i \in 1..Len(ev.x.dv) : ev.x.dv[i][2] = 0, {"C18"})
  ELSE Unless( \/ IsBad(ev)
               \/ /\ ev.x.eo = ev.eo
                  /\ SizesAndIds(ev.x.dv) = SizesAndIds(ev.dv)
                  /\ Len(ev.x.do) = Len(ev.do)
                  /\ \A i \in 1..Len(ev.do) : AckIds(ev.x.do[i]) = AckIds(ev.do[i])
             , {"C13"})
       \cup Unless( /\ ev.x.g[1] = ev.g[1] /\ ev.x.g[9] = ev.g[9] /\ ev.x.g[11] = ev.g[11]
                    /\ ev.x.g[3] = ev.g[3] /\ ev.x.g[4] = ev.g[4] /\ ev.x.g[5] = ev.g[5]
                  , {"C13"})

--------------------------------------------------------------------------------------------
Check(st, ev) ==
  LET r == Step(st, ev)
      gv == CheckEncGetters(r.s.enc, ev.g) \cup CheckAckGetters(r.s.ack, ev.g)
            \cup CheckDecGetters(r.s, ev.g)
  IN [ s |-> r.s
     , v |-> r.v \cup gv \cup CheckSecond(r.s, ev)
             \cup Unless(ev.fr = 0, {"C14"})
             \cup Unless(ev.g[18] = r.s.w, {"C16"})
             \cup (IF IsBad(ev) /\ gv # {} THEN {"C13"} ELSE {}) ]

(* Sessions may be interleaved: s gives the state of each one. They don't influence each     *)
(* other (C21): a line of a session only depends on the previous lines of this session.       *)
Init == l = 1 /\ s = <<>> /\ bad = [p \in Props |-> 0]

Next ==
  /\ l <= Len(Trace)
  /\ LET n == Trace[l].ses
         r == Check(IF n \in DOMAIN s THEN s[n] ELSE Idle, Trace[l])
     IN /\ s' = (n :> r.s) @@ s
        /\ bad' = [p \in Props |-> IF bad[p] = 0 /\ p \in r.v THEN l ELSE bad[p]]
  /\ l' = l + 1
  /\ (bad' # bad \/ l' > Len(Trace)) => PrintT("BAD " \o ToJson(bad'))

Spec == Init /\ [][Next]_<<l, s, bad>>

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================================
