------------------------------ MODULE Index_MC ------------------------------
(* All small histories of the index.                                          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, MaxH, MaxOps, Poss
VARIABLES ix, h, n, past       \* past: ghost, the map after every height
X == INSTANCE Index
Init == ix = X!Empty /\ h = 0 /\ n = 0 /\ past = <<ix.m>>
NextBlock == /\ h < MaxH /\ h' = h + 1 /\ n' = 0 /\ past' = Append(past, ix.m) /\ UNCHANGED ix
Op == /\ h > 0 /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED h
      /\ \E k \in 1..K : \E p \in Poss \cup {X!Nothing} :
           /\ p = X!Nothing => ix.m[k] # X!Nothing
           /\ ix' = X!Apply(ix, h, k, p)
      /\ past' = [past EXCEPT ![h + 1] = ix'.m]
Next == NextBlock \/ Op
Spec == Init /\ [][Next]_<<ix, h, n, past>>
RangeOK == X!RangeOK(ix)
RebuildOK == X!RebuildOK(ix)
RecsOK == X!RecsOK(ix)
HistOK == \A k \in 1..K : \A q \in 0..h : X!AsOf(ix, k, q) = past[q + 1][k]
CountOK == X!Count(ix) = Len(X!Fwd(ix, 0, 2 * K + 2))
=============================================================================
