-------------------------------------- MODULE Decoder -------------------------------------
(* The receiver side, abstractly: which data are known, which repairs are held (as sets of    *)
(* unknown sources, i.e. linear equations), what gets delivered.                              *)
(*                                                                                            *)
(* DecSource and DecRepair give the set of possible results of a reception, each one being    *)
(* [st |-> new state, dl |-> sequence of delivered identifiers].  There are several results   *)
(* only when the repairs held are linearly dependent while being as many as the missing       *)
(* sources: any of the redundant repairs may then be discarded.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, GF

None == -1

DecInit(w, ord) ==
  [ w     |-> w       \* field size
  , ord   |-> ord     \* deliver in order?
  , hz    |-> None    \* horizon: sources with a smaller identifier are outdated
  , known |-> {}      \* identifiers of known (received or decoded) sources, not outdated
  , rows  |-> <<>>    \* held repairs: identifier -> set of its unknown sources
  , next  |-> 0       \* in order: first source neither delivered nor skipped
  , nd    |-> 0       \* number of decoded sources
  , nu    |-> 0       \* number of useless repairs
  , nf    |-> 0       \* number of failed full decodings
  ]

Missing(d) == UNION {d.rows[r] : r \in DOMAIN d.rows}

RestrictRows(rows, R) == [r \in R |-> rows[r]]

--------------------------------------------------------------------------------------------
\* Sources S become known.
Learn(d, S) ==
  LET R == {r \in DOMAIN d.rows : d.rows[r] \ S # {}}
  IN [d EXCEPT !.known = @ \cup S,
               !.rows  = [r \in R |-> d.rows[r] \ S]]

\* Repairs with only one unknown source give this source, and so on.
RECURSIVE Peel(_)
Peel(d) ==
  LET S == UNION {d.rows[r] : r \in {x \in DOMAIN d.rows : Cardinality(d.rows[x]) = 1}}
  IN IF S = {} THEN d ELSE Peel([Learn(d, S) EXCEPT !.nd = @ + Cardinality(S)])

\* The rank of the equations given by repairs R.
RowsRank(d, R) ==
  LET M  == SetToSortSeq(Missing(d), <)
      RS == SetToSortSeq(R, <)
  IN Rank( d.w
         , TLCEval([i \in 1..Len(RS) |-> TLCEval([j \in 1..Len(M) |->
                      IF M[j] \in d.rows[RS[i]] THEN Coef(d.w, RS[i], M[j]) ELSE Zero(d.w)])])
         , Len(M))

\* With as many independent equations as missing sources, everything can be decoded.
FullDecoding(d) ==
  LET M == Missing(d)
      R == DOMAIN d.rows
  IN IF R = {} \/ Cardinality(M) > Cardinality(R) THEN {d}
     ELSE LET rk == RowsRank(d, R) IN
          IF rk = Cardinality(M)
          THEN {[d EXCEPT !.known = @ \cup M, !.rows = <<>>, !.nd = @ + Cardinality(M)]}
          ELSE { [d EXCEPT !.rows = RestrictRows(@, R \ {r}), !.nf = @ + 1]
                 : r \in {x \in R : RowsRank(d, R \ {x}) = rk} }

\* Everything older than k is outdated.
Forget(d, k) ==
  LET R == {r \in DOMAIN d.rows : \A s \in d.rows[r] : s >= k}
  IN [d EXCEPT !.hz    = k,
               !.known = {s \in @ : s >= k},
               !.rows  = RestrictRows(@, R)]

RECURSIVE RunEnd(_, _)
RunEnd(n, S) == IF n \in S THEN RunEnd(n + 1, S) ELSE n

\* What's delivered when the state goes from d0 to d1 (whose field 'next' is not updated yet).
Settle(d0, d1) ==
  IF ~d0.ord
  THEN [st |-> d1, dl |-> SetToSortSeq(d1.known \ d0.known, <)]
  ELSE LET held  == SetToSortSeq({s \in d0.known : s >= d0.next /\ s < d1.hz}, <)
           first == IF d1.hz > d0.next THEN d1.hz ELSE d0.next
           last  == RunEnd(first, d1.known)
       IN [ st |-> [d1 EXCEPT !.next = last]
          , dl |-> held \o [i \in 1..(last - first) |-> first + i - 1] ]

--------------------------------------------------------------------------------------------
Stale(d, id) == d.hz # None /\ id < d.hz

DecSource(d, id) ==
  IF Stale(d, id) \/ id \in d.known THEN {[st |-> d, dl |-> <<>>]}
  ELSE {Settle(d, x) : x \in FullDecoding(Peel(Learn(d, {id})))}

DecRepair(d, rid, ids) ==
  IF Stale(d, Min(ids)) \/ rid \in DOMAIN d.rows THEN {[st |-> d, dl |-> <<>>]}
  ELSE LET f == Forget(d, Min(ids))
           u == ids \ f.known
       IN IF u = {} THEN {Settle(d, [f EXCEPT !.nu = @ + 1])}
          ELSE LET g == [f EXCEPT !.rows = [r \in (DOMAIN @) \cup {rid} |->
                                              IF r = rid THEN u ELSE f.rows[r]]]
               IN {Settle(d, x) : x \in FullDecoding(Peel(g))}

--------------------------------------------------------------------------------------------
(* When acks are sent automatically.                                                          *)

MaxAckNb == 128

AckInit(now) ==
  [ nb     |-> 50      \* number of packets after which an ack is sent
  , period |-> 100     \* maximal time between two acks (0: no limit)
  , cnt    |-> 0       \* number of packets received since the last ack
  , last   |-> now     \* date of the last automatic ack
  , nsrc   |-> 0       \* number of received sources
  , nrep   |-> 0       \* number of received repairs
  , nack   |-> 0       \* number of acks sent
  ]

CeilOf(a, b) == -((-a) \div b)

AckSetNb(a, n) == [a EXCEPT !.nb = IF n > MaxAckNb THEN MaxAckNb ELSE n]

AckCount(a, ty) == IF ty = 2 THEN [a EXCEPT !.cnt = @ + 1, !.nsrc = @ + 1]
                             ELSE [a EXCEPT !.cnt = @ + 1, !.nrep = @ + 1]

AckDue(a, now) == a.cnt >= a.nb \/ (a.period # 0 /\ now - a.last >= a.period)

AckAuto(a, now) == [a EXCEPT !.cnt = 0, !.nack = @ + 1, !.last = now]
\* m packets for each of n data, the first one of which delivers it; only the number of packets matters.
AckStream(a, n, m) ==
  LET Next(c) == LET k == CeilOf(a.nb - 1 - c, m) + 1 IN IF k < 1 THEN 1 ELSE k   \* data until an ack
      j1 == Next(a.cnt)
      j2 == Next(m - 1)
  IN IF n < j1 THEN [a EXCEPT !.cnt = @ + n * m]
     ELSE [a EXCEPT !.cnt  = (m - 1) + ((n - j1) % j2) * m,
                    !.nack = @ + 1 + ((n - j1) \div j2)]

AckForced(a)    == [a EXCEPT !.cnt = 0, !.nack = @ + 1]
============================================================================================
