SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPages = 2
 PageRows = {0, 1, 2}
 Slack = {0, 1, 2}
 Depth = 3
 Counts = {0, 1, 2, 4}
 Fails = TRUE
 FirstHeld = TRUE
 Export = FALSE
INVARIANTS RowsAreTheStoredOnes RowsInOrder NothingLost Accounted Results EodOnce EodAtEnd PagesFirst NotTooFar EnoughIsEnough FailIsLoud FailNotEnd
