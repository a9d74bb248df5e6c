SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANT RdcTail = "free"
VIEW TraceView
