SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
INVARIANT ActiveInLog
