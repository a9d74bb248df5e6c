SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 RdcTail = "strict"
 Starts <- Every50
 Days = 18300
 Every = 199
 Clock <- ClockQ
INVARIANTS FormulasAgree DateCells DateTimeCells TimeCells
