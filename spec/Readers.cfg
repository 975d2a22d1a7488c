SPECIFICATION FairSpec
CONSTANTS
 Rs = {r1, r2}
 Ks = {k1, k2}
 Ps = {p1, p2}
 MaxBlk = 2
 EarlyUnlock = FALSE
 LossyHints = FALSE
INVARIANTS OneBlock NotOld Exclusion WholeBlocks
PROPERTIES Progress Served
CHECK_DEADLOCK FALSE
