------------------------------------- MODULE GenRelay -------------------------------------
(* The lossy proxy between two peers, with losses read in files: all files of a few lines,    *)
(* all interleavings of the two directions.  Checked, and turned into tests.                  *)
EXTENDS Relay, TLC, FiniteSets

CONSTANTS MaxLines, MaxSent

VARIABLES lines, st, sent, got, log

vars == <<lines, st, sent, got, log>>

Files == UNION {[1..n -> {0, 1}] : n \in 0..MaxLines}

Init == /\ lines \in [Dirs -> Files]
        /\ st = RelayInit
        /\ sent = [d \in Dirs |-> <<>>]
        /\ got = [d \in Dirs |-> <<>>]
        /\ log = ""

\* The first datagram goes from a to b: the proxy doesn't know a before.
Send(d) ==
  /\ Len(sent["ab"]) + Len(sent["ba"]) < MaxSent
  /\ d = "ba" => st.n["ab"] > 0
  /\ st.q[d] = <<>>
  /\ st' = RelayIn(st, d, Len(sent[d]) + 1, 1, 0)
  /\ sent' = [sent EXCEPT ![d] = Append(@, Len(@) + 1)]
  /\ UNCHANGED <<lines, got, log>>

Decide(d) ==
  /\ st.q[d] # <<>>
  /\ LET drop == FileDrops(lines[d], st.n[d] + 1)
     IN /\ st' = RelayDecide(st, d, drop)
        /\ got' = IF drop THEN got ELSE [got EXCEPT ![d] = Append(@, Head(st.q[d]))]
        /\ log' = log \o (IF d = "ab" THEN "a" ELSE "b") \o (IF drop THEN "-" ELSE "+")
  /\ UNCHANGED <<lines, sent>>

\* Tests: one thing at a time.
Next == IF \E d \in Dirs : st.q[d] # <<>> THEN \E d \in Dirs : Decide(d) ELSE \E d \in Dirs : Send(d)
Spec == Init /\ [][Next]_vars

\* Without this restriction.
MNext == \E d \in Dirs : Decide(d) \/ Send(d)
MSpec == Init /\ [][MNext]_vars

InOrder == \A d \in Dirs : \A i, j \in 1..Len(got[d]) : i < j => got[d][i] < got[d][j]
Counted == \A d \in Dirs : /\ st.n[d] + Len(st.q[d]) = Len(sent[d])
                           /\ st.lost[d] + Len(got[d]) = st.n[d]
                           /\ st.tr[d].ff + st.tr[d].fd + st.tr[d].df + st.tr[d].dd = st.n[d]
AfterTheEnd == \A d \in Dirs : \A k \in (Len(lines[d]) + 1)..st.n[d] : \E i \in 1..Len(got[d]) : got[d][i] = k

Text(f) == IF f = <<>> THEN "x" ELSE LET RECURSIVE T(_) T(i) == IF i > Len(f) THEN "" ELSE ToString(f[i]) \o T(i + 1)
                                     IN T(1)
Emit == (Len(sent'["ab"]) + Len(sent'["ba"]) = MaxSent /\ \A d \in Dirs : st'.q[d] = <<>>)
           => PrintT("GEN " \o Text(lines["ab"]) \o " " \o Text(lines["ba"]) \o " " \o log')
============================================================================================
