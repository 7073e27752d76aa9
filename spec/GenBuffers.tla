------------------------------------- MODULE GenBuffers -----------------------------------
(* Writes down one sequence of operations on containers per transition of the bounded system: *)
(* they're then performed on the real containers and checked with module TraceBuffers.        *)
EXTENDS Buffers

CONSTANTS Slots,      \* containers
          Sizes,      \* sizes and positions
          CInterface, \* only the operations of the C interface?
          MaxSize, Depth

VARIABLES b, hist

Values == {200}

Op(op, s, t, n, v) == [op |-> op, s |-> s, t |-> t, n |-> n, v |-> v]

Unary(s) ==
  IF CInterface
  THEN {Op(o, s, s, n, v) : o \in {"newn", "newrange", "resize"}, n \in Sizes, v \in Values}
  ELSE {Op(o, s, s, n, v) : o \in {"newn", "newnv", "newrange", "assignnv", "assignrange", "resize",
                                   "resizev", "reserve"}, n \in Sizes, v \in Values}
       \cup {Op(o, s, s, 0, v) : o \in {"new", "push", "clear", "shrink"}, v \in Values}

Writes(s) == IF s \notin DOMAIN b \/ b[s] = <<>> THEN {}
             ELSE {Op("write", s, s, n, v) : n \in {0, Len(b[s]) - 1}, v \in {101}}

Binary(s) == IF CInterface THEN {}
             ELSE {Op(o, s, t, 0, 0) : o \in {"newcopy", "newmove", "copy", "move", "swap"},
                                       t \in DOMAIN b}

Enabled(o) ==
  /\ o.op \notin Constructors => o.s \in DOMAIN b
  /\ o.op \in {"newcopy", "newmove", "move"} => o.s # o.t
  /\ LET c == Apply(b, o) IN \A s \in DOMAIN c : Len(c[s]) <= MaxSize

Init == b = <<>> /\ hist = ""

Next == \E s \in Slots : \E o \in Unary(s) \cup Writes(s) \cup Binary(s) :
          /\ Enabled(o)
          /\ b' = Apply(b, o)
          /\ hist' = hist \o o.op \o " " \o ToString(o.s) \o " " \o ToString(o.t) \o " "
                          \o ToString(o.n) \o " " \o ToString(o.v) \o ";"

Spec == Init /\ [][Next]_<<b, hist>>

View == b
Bounded == TLCGet("level") < Depth
Emit == PrintT("GEN " \o hist')

\* Containers are independent: an operation only changes the containers it names.
TypeOK == \A s \in DOMAIN b : \A i \in 1..Len(b[s]) : b[s][i] \in {Undef} \cup 0..255
============================================================================================
