------------------------------ MODULE ADSGraph ------------------------------
(* The abstract block graph of ADS: states are the sets of live keys, edges   *)
(* are the operation vectors of one block.  TLC enumerates every edge and     *)
(* writes it out; the harness walks all of them on the real code (ADSReplay   *)
(* computes the full expectation along the walk).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANT N
OutFile == IOEnv.OUT

ShardOf == [k \in 1..N |-> k % 8]
A == INSTANCE ADS WITH TwigSize <- 64, MinKept <- 10, StartReap <- 1000,
                       Ratio <- 2, PendMax <- 64, MinPrune <- 2

VARIABLES st, edge

\* 0 nothing, 1 set, 2 delete, 3 set then delete, 4 delete then set
Ops(k, c) == CASE c = 0 -> <<>>
               [] c = 1 -> <<[k |-> k, v |-> 1]>>
               [] c = 2 -> <<[k |-> k, v |-> -1]>>
               [] c = 3 -> <<[k |-> k, v |-> 1], [k |-> k, v |-> -1]>>
               [] c = 4 -> <<[k |-> k, v |-> -1], [k |-> k, v |-> 1]>>
RECURSIVE All(_, _)
All(f, k) == IF k > N THEN <<>> ELSE Ops(k, f[k]) \o All(f, k + 1)

LiveVec(x) == [k \in 1..N |-> IF A!IsLive(x.cur[k]) THEN 1 ELSE 0]

Init == st = A!Create /\ edge = <<>>
Next == \E f \in [1..N -> 0..4] :
          /\ st' = A!CommitBlock(st, 1, All(f, 1))
          /\ edge' = <<>>
          /\ CSVWrite("%1$s", <<ToJson(<<LiveVec(st), f, LiveVec(st')>>)>>, OutFile)
Spec == Init /\ [][Next]_<<st, edge>>
View == LiveVec(st)
ChainOK == A!ChainOK(st)
=============================================================================
