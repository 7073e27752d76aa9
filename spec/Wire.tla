---------------------------------------- MODULE Wire --------------------------------------
(* The binary layout of packets.  All integers are big-endian.                                *)
(*                                                                                            *)
(*   source : 2 | identifier (4) | size (2) | symbol                                          *)
(*   repair : 1 | identifier (4) | size (2) | symbol | identifiers | encoded size (4)         *)
(*   ack    : 0 | number of packets (2) | identifiers                                         *)
(*                                                                                            *)
(*   identifiers : n (2), 0 if the list is empty; otherwise the first identifier (4) followed *)
(*   by n - 1 pairs <run (1), difference (2)>, which stand for 'run' identifiers, each one    *)
(*   being its predecessor plus the difference.  A pair with a null run holds the 16 most     *)
(*   significant bits of the difference of the next pair.                                     *)
(*                                                                                            *)
(* Identifiers beyond 10^9 and larger gaps than 4.10^6 aren't handled by this specification   *)
(* (TLC's integers are limited to 2^31 - 1).                                                  *)
(*                                                                                            *)
(* A packet is observed as a record [h, n, s, t]: h are the bytes before the symbol (all the  *)
(* bytes for an ack), n is the number of bytes of the symbol that are present, s a sample of  *)
(* these bytes, t the bytes after the symbol.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC

U16At(b, i) == b[i] * 256 + b[i + 1]
FitsU31(b, i) == b[i] < 128
U32At(b, i) == ((b[i] * 256 + b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]   \* if FitsU31

NoIds == [ok |-> FALSE, ids |-> <<>>, used |-> 0]

\* The list of identifiers at position p of b.
ParseIds(b, p) ==
  IF Len(b) < p + 1 THEN NoIds
  ELSE LET n == U16At(b, p) IN
       IF n = 0 THEN [ok |-> TRUE, ids |-> <<>>, used |-> 2]
       ELSE IF Len(b) < p + 5 + 3 * (n - 1) \/ ~FitsU31(b, p + 2) THEN NoIds
       ELSE LET first == U32At(b, p + 2)
                step(acc, i) ==
                  LET q    == p + 6 + 3 * (i - 1)
                      run  == b[q]
                      v    == U16At(b, q + 1)
                  IN IF run = 0
                     THEN [acc EXCEPT !.high = v, !.ok = acc.ok /\ v < 1000]
                     ELSE LET dif  == acc.high * 65536 + v
                              last == acc.ids[Len(acc.ids)]
                          IN IF ~acc.ok \/ dif = 0 \/ dif > 4000000 \/ last > 1000000000 THEN [acc EXCEPT !.ok = FALSE]
                             ELSE [ ok   |-> TRUE, high |-> 0
                                  , ids  |-> acc.ids \o [j \in 1..run |-> last + j * dif]]
                res == FoldLeft(step, [ok |-> TRUE, high |-> 0, ids |-> <<first>>]
                               , [i \in 1..(n - 1) |-> i])
            IN [ok |-> res.ok, ids |-> res.ids, used |-> 6 + 3 * (n - 1)]

BadPacket == [ok |-> FALSE, t |-> -1, id |-> -1, n |-> 0, ids |-> <<>>, es |-> <<0, 0>>, nb |-> 0,
              len |-> 0]

ParseAck(k) ==
  LET b == k.h IN
  IF Len(b) < 3 \/ b[1] # 0 THEN BadPacket
  ELSE LET l == ParseIds(b, 4) IN
       IF ~l.ok \/ Len(b) # 3 + l.used THEN BadPacket
       ELSE [BadPacket EXCEPT !.ok = TRUE, !.t = 0, !.nb = U16At(b, 2), !.ids = l.ids,
                              !.len = 3 + l.used]

ParseSource(k) ==
  LET b == k.h IN
  IF Len(b) # 7 \/ ~FitsU31(b, 2) \/ U16At(b, 6) # k.n \/ k.t # <<>> THEN BadPacket
  ELSE [BadPacket EXCEPT !.ok = TRUE, !.t = 2, !.id = U32At(b, 2), !.n = k.n, !.len = 7 + k.n]

ParseRepair(k) ==
  LET b == k.h IN
  IF Len(b) # 7 \/ ~FitsU31(b, 2) \/ U16At(b, 6) # k.n THEN BadPacket
  ELSE LET l == ParseIds(k.t, 1) IN
       IF ~l.ok \/ Len(k.t) # l.used + 4 THEN BadPacket
       ELSE [BadPacket EXCEPT !.ok = TRUE, !.t = 1, !.id = U32At(b, 2), !.n = k.n, !.ids = l.ids,
                              !.es = <<U16At(k.t, l.used + 1), U16At(k.t, l.used + 3)>>,
                              !.len = 7 + k.n + l.used + 4]

Parse(k) ==
  IF k.h = <<>> THEN BadPacket
  ELSE CASE k.h[1] = 0 -> ParseAck(k)
         [] k.h[1] = 1 -> ParseRepair(k)
         [] k.h[1] = 2 -> ParseSource(k)
         [] OTHER -> BadPacket
============================================================================================
