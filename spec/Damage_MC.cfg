SPECIFICATION Spec
CONSTANTS
  CheckRoot = TRUE
  CheckLen = TRUE
  CheckPos = TRUE
  CheckProof = TRUE
  Pairs = "none"
  Which = 1
INVARIANTS TruthOpens RefusedOrSame OutcomeExact LiveProofs LiveExact
CHECK_DEADLOCK FALSE
