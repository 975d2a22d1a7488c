---------------------------- MODULE DamageReplay ----------------------------
(* What becomes of each concrete alteration (JSON), one line per case.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLE i
D == INSTANCE Damage WITH CheckRoot <- TRUE, CheckLen <- TRUE, CheckPos <- TRUE, CheckProof <- TRUE
In == JsonDeserialize(IOEnv.PLAN)
Cs == In.cases
MetaOf(c) == [old |-> In.meta.old[c.shard + 1], lp |-> In.meta.lp[c.shard + 1]]
Init == i = 0
Next == /\ i < Len(Cs)
        /\ CSVWrite("%1$s", <<ToJson(IF D!IsLive(Cs[i + 1]) THEN D!LiveOutcome(Cs[i + 1]) ELSE D!Outcome(Cs[i + 1], MetaOf(Cs[i + 1])))>>, IOEnv.OUT)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").distinct = Len(Cs) + 1
=============================================================================
