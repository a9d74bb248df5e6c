SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 RdcTail = "strict"
 Names = {"A", "AB", "a"}
 Unknown = "zz"
 MaxCols = 4
INVARIANTS Order OnlyListed OnlyUnlisted IncludeDecides ElseExclude EmptyKeepsAll UnknownHarmless NoFilter
