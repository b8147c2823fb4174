CONSTANTS
 Window = 6
 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Canonical Union Superset Equality
