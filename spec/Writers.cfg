INIT Init
NEXT Next
INVARIANTS Determined OnlyReads Shown
CHECK_DEADLOCK FALSE
