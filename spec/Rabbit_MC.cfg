SPECIFICATION Spec
CONSTANTS
 K = 3
 C = 3
 D = 2
 Vals = {1}
 Emit = FALSE
INVARIANTS MapOK PassOK NoLeftOver BackOK
CHECK_DEADLOCK FALSE
