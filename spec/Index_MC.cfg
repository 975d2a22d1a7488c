SPECIFICATION Spec
CONSTANTS
 K = 3
 MaxH = 3
 MaxOps = 2
 Poss = {5, 6}
INVARIANTS RangeOK RebuildOK RecsOK HistOK CountOK
CHECK_DEADLOCK FALSE
