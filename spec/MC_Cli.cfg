SPECIFICATION Spec
INVARIANTS Kept Named Nodes Names Done FreeKept
CHECK_DEADLOCK FALSE
