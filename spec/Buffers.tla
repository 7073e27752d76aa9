-------------------------------------- MODULE Buffers -------------------------------------
(* Packets and data as plain sequences of bytes.  Undef stands for a byte which isn't           *)
(* initialised.  'b' maps containers (slots) to sequences; a container which doesn't exist is *)
(* not in its domain.  An operation is a record [op, s, t, n, v]: its name, the container, a  *)
(* second container, a number and a value.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Undef == -1

Fill(n, v)    == [i \in 1..n |-> v]
Pattern(n, v) == [i \in 1..n |-> (v + 3 * (i - 1)) % 256]
Prefix(q, n)  == SubSeq(q, 1, n)
Resized(q, n, v) == IF n <= Len(q) THEN Prefix(q, n) ELSE q \o Fill(n - Len(q), v)

InitLength(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 3 ELSE 10

Put(b, s, q)  == [x \in DOMAIN b \cup {s} |-> IF x = s THEN q ELSE b[x]]
Drop(b, s)    == [x \in DOMAIN b \ {s} |-> b[x]]

Constructors == {"new", "newn", "newnv", "newrange", "newinit", "newcopy", "newmove"}

Apply(b, o) ==
  CASE o.op = "new"         -> Put(b, o.s, <<>>)
    [] o.op = "newn"        -> Put(b, o.s, Fill(o.n, Undef))
    [] o.op = "newnv"       -> Put(b, o.s, Fill(o.n, o.v))
    [] o.op = "newrange"    -> Put(b, o.s, Pattern(o.n, o.v))
    [] o.op = "newinit"     -> Put(b, o.s, Pattern(InitLength(o.n), o.v))
    [] o.op = "newcopy"     -> Put(b, o.s, b[o.t])
    [] o.op = "newmove"     -> Drop(Put(b, o.s, b[o.t]), o.t)
    [] o.op = "copy"        -> Put(b, o.s, b[o.t])
    [] o.op = "move"        -> Drop(Put(b, o.s, b[o.t]), o.t)
    [] o.op = "swap"        -> Put(Put(b, o.s, b[o.t]), o.t, b[o.s])
    [] o.op = "assignnv"    -> Put(b, o.s, Fill(o.n, o.v))
    [] o.op = "assignrange" -> Put(b, o.s, Pattern(o.n, o.v))
    [] o.op = "assigninit"  -> Put(b, o.s, Pattern(3, o.v))
    [] o.op = "resize"      -> Put(b, o.s, Resized(b[o.s], o.n, Undef))
    [] o.op = "resizev"     -> Put(b, o.s, Resized(b[o.s], o.n, o.v))
    [] o.op = "push"        -> Put(b, o.s, Append(b[o.s], o.v))
    [] o.op = "clear"       -> Put(b, o.s, <<>>)
    [] o.op = "write"       -> Put(b, o.s, [b[o.s] EXCEPT ![o.n + 1] = o.v])
    [] o.op = "reset"       -> <<>>
    [] o.op \in {"reserve", "shrink"} -> b
============================================================================================
