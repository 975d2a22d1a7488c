SPECIFICATION Spec
CONSTANTS
 N = 6
 Emit = FALSE
 KillAny = TRUE
INVARIANTS NoMissing RootOK ProofsOK
CHECK_DEADLOCK FALSE
