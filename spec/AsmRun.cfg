INIT Init
NEXT Next
CONSTANT Cases <- CachedCases
INVARIANTS Sound FailSafe Apart Inside
VIEW View
CHECK_DEADLOCK FALSE
