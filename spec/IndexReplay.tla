---------------------------- MODULE IndexReplay ----------------------------
(* The expected answers of the index along a plan.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
Plan == JsonDeserialize(IOEnv.PLAN)
OutFile == IOEnv.OUT
K == Plan.k
VARIABLES ix, i
X == INSTANCE Index
Steps == Plan.steps
Emit(n, r) == CSVWrite("%1$s", <<ToJson([i |-> n, r |-> r])>>, OutFile)
Answer(q) == IF q[3] = 0 THEN X!Fwd(ix, q[1], q[2]) ELSE X!Bwd(ix, q[1], q[2])
Full(x) == [j \in 1..K |-> x.m[j]]
Init == ix = X!Empty /\ i = 1
Next ==
  /\ i <= Len(Steps) /\ i' = i + 1
  /\ LET s == Steps[i] IN
     CASE s.op = "block" -> LET y == X!ApplyAll(ix, s.h, s.ops)
                            IN ix' = y /\ Emit(i, [m |-> Full(y), c |-> X!Count(y)])
       [] s.op = "rebuild" -> LET y == X!Rebuild(ix)
                              IN ix' = y /\ Emit(i, [m |-> Full(y), c |-> X!Count(y)])
       [] s.op = "iter" -> UNCHANGED ix /\ Emit(i, [q |-> [j \in 1..Len(s.q) |-> Answer(s.q[j])]])
       [] s.op = "hist" -> UNCHANGED ix /\ Emit(i, [q |-> [j \in 1..Len(s.q) |-> X!AsOf(ix, s.q[j][1], s.q[j][2])]])
Spec == Init /\ [][Next]_<<ix, i>>

Done == TLCGet("stats").diameter - 1 = Len(Steps)
=============================================================================
