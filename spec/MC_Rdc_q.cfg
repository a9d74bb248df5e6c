SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 RdcTail = "strict"
 Prefixes = {0, 14, 15, 16}
 MaxItems = 2
 Cnts = {0, 15}
 Exts = {0, 255}
 OfsHi = {0, 1}
 Lens = {0, 255}
 Suffixes = {0, 3}
 Export = FALSE
INVARIANTS DecodesWhatWasWritten TrailingBytesAreIgnored TooShortIsRefused
