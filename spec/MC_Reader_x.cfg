SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPages = 3
 PageRows = {0, 1, 2}
 Slack = {0, 1, 2}
 Depth = 5
 Counts = {0, 1, 2, 3, 5}
 Fails = TRUE
 FirstHeld = TRUE
 Export = TRUE
INVARIANTS Exported
