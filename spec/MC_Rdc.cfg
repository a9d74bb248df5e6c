SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 RdcTail = "strict"
 Prefixes = {0, 3, 14, 15, 16, 20}
 MaxItems = 2
 Cnts = {0, 1, 15}
 Exts = {0, 1, 255}
 OfsHi = {0, 1}
 Lens = {0, 1, 255}
 Suffixes = {0, 1, 3}
 Export = FALSE
INVARIANTS DecodesWhatWasWritten TrailingBytesAreIgnored TooShortIsRefused
