SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxCmds = 2
 Nibbles = {0, 1, 2, 7, 8, 14, 15}
 Exts = {0, 1, 127, 128, 254, 255}
 Operands = {0, 32, 65}
 Rooms = {0, 1, 5}
 Mid = {0, 15}
 Export = TRUE
INVARIANTS Exported
