SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxFaults = 1
  MaxCalls = 3
  MaxWire = 2
  Alphabet = {"b", "t", "c", "d", "x", "r", "o", "u"}
  Bug = "none"
  Emit = TRUE
INVARIANTS Schedules ExactlyOnce LabelsChain AfterCommit KeepIsBoundary HandlerInside NothingLeft ReaderBeforeClose Reported NotSwallowed FailuresReturned OneRequest
CHECK_DEADLOCK FALSE
