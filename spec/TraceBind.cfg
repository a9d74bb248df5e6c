SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANT RdcTail = "strict"
VIEW TraceView
