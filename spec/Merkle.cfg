SPECIFICATION Spec
CONSTANTS
 LB = 2
 UP = 1
 Free = 3
 Depth = 2
 Tagged = TRUE
 Bounded = TRUE
CONSTRAINT Few
INVARIANTS Complete Sound
CHECK_DEADLOCK FALSE
