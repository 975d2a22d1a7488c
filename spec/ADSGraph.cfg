SPECIFICATION Spec
CONSTANT N = 3
VIEW View
INVARIANT ChainOK
CHECK_DEADLOCK FALSE
