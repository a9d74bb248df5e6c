SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANT RdcTail = "dropped"
VIEW TraceView
