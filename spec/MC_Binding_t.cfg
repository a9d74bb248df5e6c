SPECIFICATION Spec
CONSTANTS
  MaxPages = 3
  PageRows = {1, 2, 3}
  Slack = {0, 1}
  Depth = 5
  Counts = {1, 2, 4}
  Sizes = {0, 1, 2, 3}
  Kinds = {"row", "chunk", "data"}
INVARIANTS Partition RowByRow ChunkSizes ShortOnlyAtEnds NothingHeld WholeData NeverLess Increasing
CHECK_DEADLOCK FALSE
