--------------------------------------- MODULE Relay --------------------------------------
(* The tools which stand between two peers: the lossy proxy, and the forwarder of sources.    *)
(*                                                                                            *)
(* Each direction is a queue of datagrams which were given to the proxy and whose fate isn't  *)
(* known yet.  The proxy decides in order: a datagram is either forwarded or dropped.         *)
EXTENDS Integers, Sequences

Dirs == {"ab", "ba"}

RelayInit ==
  [ q    |-> [d \in Dirs |-> <<>>]   \* given to the proxy
  , n    |-> [d \in Dirs |-> 0]      \* decided
  , lost |-> [d \in Dirs |-> 0]      \* dropped
  , last |-> [d \in Dirs |-> FALSE]  \* was the last one dropped?
  \* how many times: dropped or not (second letter) after dropped or not
  , tr   |-> [d \in Dirs |-> [x \in {"ff", "fd", "df", "dd"} |-> 0]]
  , to   |-> 0                       \* who gets what comes back: the last one who sent something
  ]

Between(was, is) == IF was THEN (IF is THEN "dd" ELSE "df") ELSE (IF is THEN "fd" ELSE "ff")

\* A datagram is given to the proxy. An empty one is nothing.
RelayIn(st, d, x, size, from) ==
  IF size = 0 THEN st
  ELSE LET st1 == [st EXCEPT !.q[d] = Append(@, x)]
       IN IF d = "ab" THEN [st1 EXCEPT !.to = from] ELSE st1

\* The fate of the oldest one.
RelayDecide(st, d, drop) ==
  [st EXCEPT !.q[d]    = Tail(@),
             !.n[d]    = @ + 1,
             !.lost[d] = IF drop THEN @ + 1 ELSE @,
             !.tr[d]   = [@ EXCEPT ![Between(st.last[d], drop)] = @ + 1],
             !.last[d] = drop]

\* Losses read in a file: the k-th datagram is lost if the k-th line doesn't begin with '0'.
FileDrops(lines, k) == k <= Len(lines) /\ lines[k] # 0

(* Random losses: after many datagrams, the proportion k / n of losses is the expected one    *)
(* (p per cent). The tolerance is 1 per cent, plus 6 standard deviations:                      *)
(*     |100 k - p n| <= n + 600 sqrt(n/4), and thus <= n + 300 r where r^2 >= n                *)
RECURSIVE RootFrom(_, _)
RootFrom(r, n) == IF r * r >= n THEN r ELSE RootFrom(r + 1, n)
Abs(x) == IF x < 0 THEN -x ELSE x
Proportion(k, n, p) == Abs(100 * k - p * n) <= n + 300 * RootFrom(0, n)

\* Are the losses of direction d, with parameters m, those of the model?
UniformOK(st, d, p) == Proportion(st.lost[d], st.n[d], p)
BurstOK(st, d, good, badp) ==
  LET t == st.tr[d]
  IN /\ Proportion(t.ff, t.ff + t.fd, good)
     /\ Proportion(t.dd, t.dd + t.df, badp)
============================================================================================
