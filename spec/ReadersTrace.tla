---------------------------- MODULE ReadersTrace ----------------------------
(* Is a recorded concurrent run of the stores a behaviour of Readers?         *)
(* Events: open/opened/close of reader sessions, what they read, and the call *)
(* and return of each write-back with the contents of its block.              *)
(* A reader holds the lock from "opened" (no earlier acquisition could make a *)
(* difference: no block can complete while it holds it) to "close"; the block *)
(* is applied at some moment between the call and the return, with no reader  *)
(* inside.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
H == Trace[1]                       \* [k |-> number of keys, r |-> number of readers]
VARIABLES i, maps, hashes, inside, wb
vars == <<i, maps, hashes, inside, wb>>
\* maps: the state after each block (maps[1]: the empty one); hashes likewise
\* inside: reader -> 0 (no session) or the index of the block it sees
\* wb: 0 nothing running, else the number of the write-back's event, negative once it is applied
Init == /\ i = 2 /\ maps = <<[k \in 1..H.k |-> -1]>> /\ hashes = <<H.hash>>
        /\ inside = [r \in 1..H.r |-> 0] /\ wb = 0
E == Trace[i]
Apply == /\ wb > 0 /\ \A r \in 1..H.r : inside[r] = 0
         /\ LET e == Trace[wb] IN
            /\ maps' = Append(maps, FoldLeft(LAMBDA m, o : [m EXCEPT ![o[1]] = o[2]], maps[Len(maps)], e.ops))
            /\ hashes' = Append(hashes, e.hash)
         /\ wb' = -wb /\ UNCHANGED <<i, inside>>
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ CASE E.e = "wb" -> wb = 0 /\ wb' = i /\ UNCHANGED <<maps, hashes, inside>>
             [] E.e = "wbdone" -> wb < 0 /\ wb' = 0 /\ UNCHANGED <<maps, hashes, inside>>
             [] E.e = "open" -> UNCHANGED <<maps, hashes, inside, wb>>
             [] E.e = "opened" -> /\ inside[E.r] = 0 /\ inside' = [inside EXCEPT ![E.r] = Len(maps)]
                                  /\ UNCHANGED <<maps, hashes, wb>>
             [] E.e = "read" -> inside[E.r] > 0 /\ maps[inside[E.r]][E.k] = E.v /\ UNCHANGED <<maps, hashes, inside, wb>>
             [] E.e = "past" -> inside[E.r] > 0 /\ E.b < Len(maps) /\ maps[E.b + 1][E.k] = E.v /\ UNCHANGED <<maps, hashes, inside, wb>>
             [] E.e = "hash" -> inside[E.r] > 0 /\ hashes[inside[E.r]] = E.h /\ UNCHANGED <<maps, hashes, inside, wb>>
             [] E.e = "close" -> inside[E.r] > 0 /\ inside' = [inside EXCEPT ![E.r] = 0] /\ UNCHANGED <<maps, hashes, wb>>
             [] OTHER -> FALSE
Next == Apply \/ Step
Spec == Init /\ [][Next]_vars
\* some path consumed the whole trace; TLCGet of the diameter counts the Apply steps too
Blocks == Cardinality({j \in 2..Len(Trace) : Trace[j].e = "wb"})
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) - 1 + Blocks
Progress == TLCSet(1, i)
=============================================================================
