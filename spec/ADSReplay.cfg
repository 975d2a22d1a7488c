SPECIFICATION Spec
INVARIANTS ChainOK SerialOK AppOK
CHECK_DEADLOCK FALSE
POSTCONDITION Done
