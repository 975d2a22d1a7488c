------------------------------ MODULE LogTrace ------------------------------
(* Is a recorded run of a record file a behaviour of an append-only log?     *)
(* The trace (JSON lines) tells what the file did and what it answered; the  *)
(* log keeps <<position, length>> of the records which are left.             *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Block == Trace[1].block
VARIABLES recs, size, i
vars == <<recs, size, i>>
Init == recs = <<>> /\ size = 0 /\ i = 2
E == Trace[i]
PosFrom(k) == [j \in 1..(Len(recs) - k + 1) |-> recs[k + j - 1][1]]
Next ==
  /\ i <= Len(Trace) /\ i' = i + 1
  /\ CASE E.op = "append" -> /\ E.pos = size /\ E.size > size     \* where the last record ended
                             /\ recs' = Append(recs, <<E.pos, E.size - E.pos>>) /\ size' = E.size
       [] E.op \in {"flush", "reopen"} -> E.size = size /\ UNCHANGED <<recs, size>>
       [] E.op = "truncate" -> /\ size' = E.to /\ E.size = E.to
                               /\ recs' = SelectSeq(recs, LAMBDA r : r[1] < E.to)
       [] E.op = "prune" -> /\ E.size = size /\ UNCHANGED size
                            /\ recs' = SelectSeq(recs, LAMBDA r : r[1] \div Block >= E.to \div Block)
       \* scanning from record k of those left visits exactly the following ones, in order
       [] E.op = "scan" -> E.got = PosFrom(E.k) /\ UNCHANGED <<recs, size>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) - 1
=============================================================================
