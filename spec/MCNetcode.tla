------------------------------------- MODULE MCNetcode ------------------------------------
EXTENDS Netcode
RI_plain == [i \in 1..300 |-> i - 1]
\* Over GF(2^4), repairs 0 and 15 have the same coefficients, as 1 and 16, ...
RI_dep   == [i \in 1..300 |-> IF i <= 6 THEN <<0, 15, 1, 16, 30, 31>>[i] ELSE 40 + i]
RI_dep2  == [i \in 1..300 |-> IF i <= 4 THEN <<0, 1, 15, 16>>[i] ELSE 20 + i]
NoLimit == {Unlimited}
Lim2 == {2}
Lim23 == {2, 3}
Lim13 == {1, 3}
Lim2U == {2, Unlimited}
Lim3U == {3, Unlimited}
Sys == {TRUE}
NonSys == {FALSE}
BothModes == {TRUE, FALSE}
No == {FALSE}
Yes == {TRUE}
Rate1 == {1}
Rate2 == {2}
RateNever == {1000}
Rates12 == {1, 2}
============================================================================================
