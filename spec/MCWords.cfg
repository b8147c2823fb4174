INIT Init
NEXT Next
CONSTANTS
  MaxLen = 5
  Alphabet = {"b", "t", "c", "d", "x", "k", "r", "o", "j", "q"}
INVARIANT List
CHECK_DEADLOCK FALSE
