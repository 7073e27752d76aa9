--------------------------------------- MODULE Faults -------------------------------------
(* Lack of memory, seen through the C interface: any allocation of any call may fail.         *)
EXTENDS Integers, Sequences, FiniteSets

(* What a call may answer.                                                                     *)
(*   oom:  an allocation failed during this call (0 or 1)                                      *)
(*   null: the created object is a null pointer;  left: memory which then isn't released       *)
(*   er:   the reported error;  same: everything is as without any fault                       *)
NoMemory == 2    \* ntc_no_memory

NewOK(oom, null, left) == /\ oom = 0 => null = 0
                          /\ null = 1 => left = 0
UseOK(oom, er, same)   == same = 1 \/ (oom = 1 /\ er = NoMemory)

(* An encoder, step by step: what is done when adding a data, and what is done when the       *)
(* allocation needed by a step fails.                                                         *)
CONSTANTS MaxData, Rate

VARIABLES
  pc,      \* what remains to be done in the current call (idle: no call)
  k,       \* number of data given so far
  nid,     \* the next identifier of a source
  window,  \* sources, identifier and data
  sent,    \* sources sent, identifier and data
  reps,    \* repairs sent: sources they encode
  er,      \* the error reported by the last call
  oom      \* has an allocation failed during this call?

fvars == <<pc, k, nid, window, sent, reps, er, oom>>

FInit == /\ pc = "idle" /\ k = 0 /\ nid = 0 /\ window = <<>> /\ sent = {} /\ reps = {} /\ er = 0 /\ oom = 0

Call(op) == /\ pc = "idle"
            /\ op = "append" => k < MaxData
            /\ pc' = op
            /\ k' = IF op = "append" THEN k + 1 ELSE k
            /\ oom' = 0
            /\ UNCHANGED <<nid, window, sent, reps, er>>

Return(e) == pc' = "idle" /\ er' = e

\* The allocation needed by the current step fails: the call ends, nothing else is done.
Exhausted == /\ pc \in {"append", "repair"}
             /\ oom' = 1
             /\ Return(NoMemory)
             /\ UNCHANGED <<k, nid, window, sent, reps>>

\* The source is created, and then its identifier is used, whatever happens next.
Append_ == /\ pc = "append"
           /\ window' = Append(window, <<nid, k>>)
           /\ nid' = nid + 1
           /\ pc' = "send"
           /\ UNCHANGED <<k, sent, reps, er, oom>>

Send == /\ pc = "send"
        /\ sent' = sent \cup {window[Len(window)]}
        /\ IF nid % Rate = 0 THEN pc' = "repair" /\ er' = er ELSE Return(0)
        /\ UNCHANGED <<k, nid, window, reps, oom>>

Repair == /\ pc = "repair"
          /\ reps' = IF window = <<>> THEN reps ELSE reps \cup {window}
          /\ Return(0)
          /\ UNCHANGED <<k, nid, window, sent, oom>>

\* Some sources are acknowledged (reading the ack may fail too, then nothing changes).
Acked == /\ pc = "idle"
         /\ \E s \in SUBSET (1..Len(window)) :
              window' = [i \in 1..(Len(window) - Cardinality(s)) |->
                           window[CHOOSE j \in (1..Len(window)) \ s :
                                    Cardinality({x \in (1..Len(window)) \ s : x <= j}) = i]]
         /\ UNCHANGED <<pc, k, nid, sent, reps, er, oom>>

FNext == Call("append") \/ Call("repair") \/ Exhausted \/ Append_ \/ Send \/ Repair \/ Acked

FSpec == FInit /\ [][FNext]_fvars

(* Whatever fails:                                                                             *)
\* - a lack of memory is reported when there is one, and only then;
Reported == pc = "idle" => (er = NoMemory) = (oom = 1)
\* - an identifier is given to one data only, among those that were sent or encoded;
Items == sent \cup UNION {{r[i] : i \in 1..Len(r)} : r \in reps}
OneDataPerId == \A x, y \in Items : x[1] = y[1] => x = y
\* - what is to be encoded is sorted, as the decoder supposes.
Sorted == \A i, j \in 1..Len(window) : i < j => window[i][1] < window[j][1]
============================================================================================
