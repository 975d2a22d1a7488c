SPECIFICATION Spec
CONSTANTS
 MaxTokens = 4
 Emit = TRUE
INVARIANTS RoundTrip NoMarkerLeft
CHECK_DEADLOCK FALSE
