SPECIFICATION Spec
CONSTANTS
 NS = 2
 TwigSize = 2
 MaxBlocks = 2
 MaxAppend = 2
 MaxCrash = 2
 CommitEarly = TRUE
 RemoveEarly = FALSE
INVARIANTS Recoverable NothingLost IdleExact
CHECK_DEADLOCK FALSE
