SPECIFICATION Spec
CONSTANTS MaxUp = 40
INVARIANTS EachOnce Rising
CHECK_DEADLOCK FALSE
