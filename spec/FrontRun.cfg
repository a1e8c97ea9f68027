INIT Init
NEXT Next
CONSTANT Cases <- CachedCases
INVARIANTS Linked
VIEW View
CHECK_DEADLOCK FALSE
