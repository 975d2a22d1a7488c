SPECIFICATION Spec
CONSTANTS
 B = 8
 C = 4
 Depth = 6
 Emit = FALSE
 Pieces <- PiecesA
INVARIANTS ReadOK ScanOK CanonOK BoundOK
VIEW View
CHECK_DEADLOCK FALSE
