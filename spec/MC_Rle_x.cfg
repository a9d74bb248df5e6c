SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxCmds = 2
 Nibbles = {0, 1, 15}
 Exts = {0, 1, 255}
 Operands = {0, 65}
 Rooms = {0, 5}
 Mid = {0, 15}
 Export = TRUE
INVARIANTS Exported
