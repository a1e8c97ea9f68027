INIT Init
NEXT Next
CONSTANT Cases <- CachedCases
INVARIANT Independent
VIEW View
CHECK_DEADLOCK FALSE
