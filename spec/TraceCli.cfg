SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
CONSTANT RdcTail = "strict"
VIEW TraceView
