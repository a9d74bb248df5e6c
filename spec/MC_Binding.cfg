SPECIFICATION Spec
CONSTANTS
  MaxPages = 2
  PageRows = {1, 3}
  Slack = {0}
  Depth = 3
  Counts = {1, 2}
  Sizes = {0, 1, 2, 3}
  Kinds = {"row", "chunk", "data"}
INVARIANTS Partition RowByRow ChunkSizes ShortOnlyAtEnds NothingHeld WholeData NeverLess Increasing
CHECK_DEADLOCK FALSE
