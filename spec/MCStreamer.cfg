SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxFaults = 2
  MaxCalls = 3
  MaxWire = 2
  Alphabet = {"b", "t", "c", "d", "x", "r", "o", "u"}
  Bug = "none"
  Emit = FALSE
INVARIANTS ExactlyOnce LabelsChain AfterCommit KeepIsBoundary HandlerInside NothingLeft ReaderBeforeClose Reported NotSwallowed FailuresReturned OneRequest
CHECK_DEADLOCK FALSE
