------------------------------------ MODULE GenNetcode ------------------------------------
(* Writes down one test per transition of the bounded system: the sequence of calls that      *)
(* leads to the transition (along a shortest path), and what must be observed at the last one *)
(* (the observations of the previous ones are the subject of shorter tests).                  *)
(* To be used when the specification is deterministic (no linearly dependent repairs).        *)
EXTENDS MCNetcode, Json

VARIABLE hist      \* the calls, as a string

Bit(b) == IF b THEN "1" ELSE "0"

GInit == /\ Init
         /\ hist = "w" \o ToString(W) \o " o" \o Bit(Ordered) \o " L" \o ToString(e.lim)
                   \o " R" \o ToString(e.rate) \o " S" \o Bit(e.sys) \o " A" \o Bit(e.adapt)
                   \o " N" \o ToString(AckNb) \o " P" \o ToString(AckPeriod)

Do(op) == hist' = hist \o " " \o op

GNext ==
  \/ Submit      /\ Do("d")
  \/ ForceRepair /\ Do("r")
  \/ \E l \in Limits : SetLimitTo(l) /\ Do("L" \o ToString(l))
  \/ SetMode     /\ Do("S" \o Bit(~e.sys))
  \/ \E i \in 1..Len(pk) : RecvPacketAt(i) /\ Do("p" \o ToString(i - 1))
  \/ ForceAck    /\ Do("k")
  \/ \E i \in 1..Len(ak) : RecvAckAt(i) /\ Do("a" \o ToString(i - 1))
  \/ Tick        /\ Do("t")

GSpec == GInit /\ [][GNext]_<<vars, hist>>

Packet(p) == IF p.t = 2 THEN [t |-> 2, id |-> p.id, ids |-> <<>>] ELSE p

Emit ==
  PrintT("GEN " \o hist' \o " " \o
         ToJson([ eo |-> [i \in 1..(Len(pk') - Len(pk)) |-> Packet(pk'[Len(pk) + i])]
                , ak |-> [i \in 1..(Len(ak') - Len(ak)) |-> ak'[Len(ak) + i]]
                , dv |-> SubSeq(dlv', Len(dlv) + 1, Len(dlv'))
                , win |-> Len(e'.win), rate |-> e'.rate
                , miss |-> Cardinality(Missing(d')), nd |-> d'.nd, nu |-> d'.nu ]))
============================================================================================
