SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 RdcTail = "strict"
 Starts = {1400, 1582, 1599, 1899, 1958, 1959, 1960, 1999, 2000, 2099, 7999, 9996, 9999}
 Days = 800
 Every = 23
 Clock <- ClockQ
INVARIANTS FormulasAgree DateCells DateTimeCells TimeCells
