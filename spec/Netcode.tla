-------------------------------------- MODULE Netcode -------------------------------------
(* The whole system: an encoder and a decoder, connected by a network which may lose,         *)
(* duplicate and reorder everything (any packet ever emitted may be received at any time, any *)
(* number of times, or never) and by a return channel for acks with the same defects.         *)
EXTENDS Encoder, Decoder, TLC

CONSTANTS W,          \* field size
          Ordered,    \* in-order decoder?
          Limits,     \* the window limits that may be configured
          Rates,      \* the rates that may be configured
          Modes,      \* the code types that may be configured (TRUE: systematic)
          Adaptives,  \* adaptive or not
          AckNb,      \* automatic ack after this number of packets
          AckPeriod,  \* automatic ack after this time
          MaxData, MaxRepairs, MaxAcks, MaxTime,  \* bounds
          RepairIds   \* identifiers of repairs: the n-th generated one is RepairIds[n]

VARIABLES e,      \* encoder
          d,      \* decoder
          a,      \* when to ack
          now,    \* clock
          pk,     \* packets emitted by the encoder
          ak,     \* acks emitted by the decoder
          dlv,    \* identifiers of delivered data, in order of delivery
          got,    \* data which have been received or decoded by the decoder, ever
          acked,  \* data which have been removed from the window by an ack
          evct    \* data which have been evicted from the window
vars == <<e, d, a, now, pk, ak, dlv, got, acked, evct>>

(* In order to reach singular matrices with few repairs, the model may use arbitrary          *)
(* increasing repair identifiers (as if the repairs in between had been lost).                *)
Renumber(out) == [i \in 1..Len(out) |->
                    IF out[i].t = 2 THEN out[i]
                    ELSE [out[i] EXCEPT !.id = RepairIds[@ + 1]]]

Range_(s) == {s[i] : i \in 1..Len(s)}

Init ==
  /\ \E r \in Rates, l \in Limits, m \in Modes, ad \in Adaptives :
       e = [EncInit EXCEPT !.rate = r, !.lim = l, !.sys = m, !.adapt = ad]
  /\ d = DecInit(W, Ordered)
  /\ a = [AckInit(0) EXCEPT !.nb = AckNb, !.period = AckPeriod]
  /\ now = 0
  /\ pk = <<>> /\ ak = <<>> /\ dlv = <<>>
  /\ got = {} /\ acked = {} /\ evct = {}

Submit ==
  /\ e.sid < MaxData
  /\ LET r == EncData(e)
     IN /\ r.st.rid <= MaxRepairs
        /\ e' = r.st
        /\ pk' = pk \o Renumber(r.out)
        /\ evct' = evct \cup (Range_(e.win) \ Range_(r.st.win))
  /\ UNCHANGED <<d, a, now, ak, dlv, got, acked>>

ForceRepair ==
  /\ e.rid < MaxRepairs
  /\ e.win # <<>>
  /\ LET r == EncRepair(e) IN e' = r.st /\ pk' = pk \o Renumber(r.out)
  /\ UNCHANGED <<d, a, now, ak, dlv, got, acked, evct>>

SetLimitTo(l) ==
  /\ l # e.lim
  /\ e' = [e EXCEPT !.lim = l]
  /\ UNCHANGED <<d, a, now, pk, ak, dlv, got, acked, evct>>

SetLimit == \E l \in Limits : SetLimitTo(l)

SetMode ==
  /\ ~e.sys \in Modes
  /\ e' = [e EXCEPT !.sys = ~@]
  /\ UNCHANGED <<d, a, now, pk, ak, dlv, got, acked, evct>>

Receive(p, r) ==
  /\ d' = r.st
  /\ dlv' = dlv \o r.dl
  /\ got' = got \cup r.st.known
  /\ LET a1 == AckCount(a, p.t)
     IN IF r.dl # <<>> /\ AckDue(a1, now)
        THEN /\ Len(ak) < MaxAcks
             /\ a' = AckAuto(a1, now)
             \* Sent while the packet is being processed.
             /\ \E ids \in {d.known, d.known \cap r.st.known, d.known \cup r.st.known} :
                  ak' = Append(ak, [nb |-> a1.cnt, ids |-> ids])
        ELSE a' = a1 /\ UNCHANGED ak

RecvPacketAt(i) ==
  LET p == pk[i] IN
  /\ \E r \in (IF p.t = 2 THEN DecSource(d, p.id) ELSE DecRepair(d, p.id, Range_(p.ids))) :
       Receive(p, r)
  /\ UNCHANGED <<e, now, pk, acked, evct>>

RecvPacket == \E i \in 1..Len(pk) : RecvPacketAt(i)

ForceAck ==
  /\ Len(ak) < MaxAcks
  /\ ak' = Append(ak, [nb |-> a.cnt, ids |-> d.known])
  /\ a' = AckForced(a)
  /\ UNCHANGED <<e, d, now, pk, dlv, got, acked, evct>>

RecvAckAt(i) ==
  /\ \E rt \in EncAckRates(e, ak[i].nb) : e' = EncAck(e, ak[i].ids, rt)
  /\ acked' = acked \cup (Range_(e.win) \cap ak[i].ids)
  /\ UNCHANGED <<d, a, now, pk, ak, dlv, got, evct>>

RecvAck == \E i \in 1..Len(ak) : RecvAckAt(i)

Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<e, d, a, pk, ak, dlv, got, acked, evct>>

Next == Submit \/ ForceRepair \/ SetLimit \/ SetMode \/ RecvPacket \/ ForceAck \/ RecvAck \/ Tick

Spec == Init /\ [][Next]_vars

\* Statistics do not influence the behaviour.
View == << [e EXCEPT !.nsrc = 0, !.nrep = 0, !.nack = 0, !.sent = IF e.adapt THEN @ ELSE 0]
         , [d EXCEPT !.nd = 0, !.nu = 0, !.nf = 0]
         , [a EXCEPT !.nsrc = 0, !.nrep = 0, !.nack = 0
                   , !.cnt = IF \/ \E x \in Adaptives : x
                                \/ AckNb <= MaxAckNb THEN @ ELSE 0]
         , now, pk, [i \in 1..Len(ak) |-> IF e.adapt THEN ak[i] ELSE [nb |-> 0, ids |-> ak[i].ids]]
         , dlv, got, acked, evct >>

\* For configurations with automatic acks or the adaptive rate, where counters matter.
SmallCounters == a.cnt <= 4 /\ e.sent <= 12 /\ e.nack <= 3

--------------------------------------------------------------------------------------------
(* Properties. *)

\* C02: at most once.
AtMostOnce == \A i, j \in 1..Len(dlv) : i # j => dlv[i] # dlv[j]

\* C01 (the part visible at this level): only submitted data are delivered.
OnlySubmitted == \A i \in 1..Len(dlv) : dlv[i] \in 0..(e.sid - 1)

\* C03: increasing order; only outdated sources are skipped.
InOrder ==
  Ordered =>
    /\ \A i \in 1..(Len(dlv) - 1) : dlv[i] < dlv[i + 1]
    /\ dlv # <<>> => \A s \in 0..dlv[Len(dlv)] : s \in Range_(dlv) \/ s < d.hz

\* C03, C17: the data skipped were not recoverable: they had left the window before.
SkippedOnlyAbandoned ==
  Ordered => \A s \in 0..(d.next - 1) : s \in Range_(dlv) \/ s \in evct

\* C04: nothing deliverable is withheld; everything obtained is delivered, or held in order.
NothingWithheld ==
  IF Ordered THEN /\ d.next \notin d.known
                  /\ \A s \in d.known : s < d.next => s \in Range_(dlv)
                  /\ \A s \in got : s \in Range_(dlv) \/ (s \in d.known /\ s > d.next)
             ELSE got = Range_(dlv)

\* C05: no repair with a single unknown, no solvable system.
NothingDecodable ==
  /\ \A r \in DOMAIN d.rows : Cardinality(d.rows[r]) >= 2
  /\ d.rows # <<>> => /\ Cardinality(DOMAIN d.rows) < Cardinality(Missing(d))
                      /\ RowsRank(d, DOMAIN d.rows) < Cardinality(Missing(d))

\* C07: acks only list data the decoder has; what left the window because of an ack is safe.
AcksTruthful == /\ \A i \in 1..Len(ak) : ak[i].ids \subseteq got
                /\ acked \subseteq got

\* C08
WindowDiscipline ==
  /\ \A i \in 1..(Len(e.win) - 1) : e.win[i] < e.win[i + 1]
  /\ Range_(e.win) = (0..(e.sid - 1)) \ (acked \cup evct)
  /\ \A x \in evct, y \in Range_(e.win) : x < y

WindowLimited == [][e'.sid # e.sid /\ e.lim # Unlimited => Len(e'.win) <= e.lim]_vars
EvictOnlyWhenNeeded == [][evct' # evct => /\ Len(e.win) >= e.lim
                                           /\ Len(e'.win) = e.lim]_vars

\* C09, C10
PacketsNumbered ==
  LET S == SelectSeq(pk, LAMBDA p : p.t = 2)
      R == SelectSeq(pk, LAMBDA p : p.t = 1)
  IN /\ \A i \in 1..(Len(S) - 1) : S[i].id < S[i + 1].id
     /\ \A i \in 1..Len(R) : R[i].id = RepairIds[i] /\ R[i].ids # <<>>

\* C17
HorizonMonotone == [][d'.hz >= d.hz]_vars
HorizonSafe     == e.win # <<>> => d.hz <= Head(e.win)
NothingStaleKept == /\ \A s \in d.known : s >= d.hz
                    /\ \A s \in Missing(d) : s >= d.hz

\* C11
AdaptiveBounds == e.adapt \/ e.rate \in Rates

(* C06: from every reachable state, K exchanges without losses (a fresh repair is received,   *)
(* an ack is generated and received) empty the window; everything which was in the window is  *)
(* then delivered, and even everything ever submitted if nothing was ever evicted.  Whatever  *)
(* dependent repairs the decoder chooses to discard.                                          *)
RECURSIVE Drained(_, _, _, _)
Drained(ee, dd, dl, k) ==
  IF ee.win = <<>>
  THEN /\ Range_(e.win) \subseteq dl
       /\ evct = {} => (0..(e.sid - 1)) \subseteq dl
  ELSE IF k = 0 THEN FALSE
  ELSE LET r == EncRepair(ee)
           p == Renumber(r.out)[1]
       IN \A x \in DecRepair(dd, p.id, Range_(p.ids)) :
            Drained(EncAck(r.st, x.st.known, r.st.rate), x.st, dl \cup Range_(x.dl), k - 1)

CONSTANT DrainRounds
DrainsFromHere == Drained(e, d, Range_(dlv), DrainRounds)
============================================================================================
