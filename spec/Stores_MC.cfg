SPECIFICATION Spec
CONSTANTS
 K = 2
 T = 2
 Vals = {1}
 MaxOps = 2
 CacheableKeys = {1}
 WithSide = FALSE
CONSTRAINT Bound
INVARIANTS NoStaleCache RootOK TrunkOK SideOK TxOK Untouched Stable
CHECK_DEADLOCK FALSE
