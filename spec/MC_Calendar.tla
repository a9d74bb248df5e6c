---------------------------- MODULE MC_Calendar ----------------------------
(***************************************************************************)
(* A clock that walks the calendar day by day by the schoolbook rules      *)
(* (month lengths, leap years), next to the closed formulas of             *)
(* Calendar.tla and to its reading of IEEE doubles.  V02 rests on these    *)
(* formulas; here they are checked for every day of the calendar walked.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SasFile
CONSTANTS Starts,     \* years whose first day the walk starts from
          Days,       \* days walked from each
          Every,      \* cells are tried on every Every-th day and at the ends of February and December
          Clock       \* seconds of day and microseconds tried on each day
VARIABLES y, m, d, n, left
vars == <<y, m, d, n, left>>

MonthLen(yy, mm) == CASE mm = 2 -> IF IsLeap(yy) THEN 29 ELSE 28 [] mm \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* days of the years from 1960 to yy (schoolbook sum)
YearSum(a, b) == 365 * (b - a) + Cardinality({k \in a..(b - 1) : IsLeap(k)})
YearStart(yy) == IF yy >= 1960 THEN YearSum(1960, yy) ELSE -YearSum(yy, 1960)

Init == \E s \in Starts : y = s /\ m = 1 /\ d = 1 /\ n = YearStart(s) /\ left = Days
Next == /\ left > 0 /\ ~(y = 9999 /\ m = 12 /\ d = 31)
        /\ left' = left - 1 /\ n' = n + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars

\* ---- an encoder of dyadic numbers, to set against the decoder: the 8 bytes of (-1)^neg * (hi * 86400 + lo + f / 64)
RECURSIVE Bits(_, _)
Bits(v, k) == IF k = 0 THEN <<>> ELSE Append(Bits(v \div 2, k - 1), v % 2)
\* hi * 86400 + lo as 40 bits: 86400 = 2^7 * 675
RECURSIVE AddBits(_, _, _, _)
AddBits(a, b, k, carry) == IF k = 0 THEN <<>> ELSE LET t == a[k] + b[k] + carry IN Append(AddBits(a, b, k - 1, t \div 2), t % 2)
Shl(bits, k) == SubSeq(bits, k + 1, Len(bits)) \o [i \in 1..k |-> 0]
Times675(bits) == LET a(k) == Shl(bits, k) IN     \* 675 = 512 + 128 + 32 + 2 + 1
  AddBits(AddBits(AddBits(AddBits(a(9), a(7), 40, 0), a(5), 40, 0), a(1), 40, 0), bits, 40, 0)
SecBits(hi, lo) == AddBits(Shl(Times675(Bits(hi, 40)), 7), Bits(lo, 40), 40, 0)
RECURSIVE FirstOne(_, _)
FirstOne(b, k) == IF k > Len(b) THEN 0 ELSE IF b[k] = 1 THEN k ELSE FirstOne(b, k + 1)
ByteAt(b, k) == LET v(i) == b[k + i] * 2^(7 - i) IN v(0) + v(1) + v(2) + v(3) + v(4) + v(5) + v(6) + v(7)
Encode(neg, bits, f) ==       \* integer bits and 6 fraction bits
  LET all == bits \o Bits(f, 6)
      k == FirstOne(all, 1)
      e == Len(bits) - k
      man == SubSeq(all, k + 1, Len(all)) \o [i \in 1..52 |-> 0]
      w == <<IF neg THEN 1 ELSE 0>> \o Bits(e + 1023, 11) \o SubSeq(man, 1, 52)
  IN IF k = 0 THEN [i \in 1..8 |-> 0] ELSE [i \in 1..8 |-> ByteAt(w, 8 * (i - 1) + 1)]

Abs(x) == IF x < 0 THEN -x ELSE x
FormulasAgree == CivilFromDays(n) = <<y, m, d>> /\ DaysFromCivil(y, m, d) = n /\ InCalendar(n)
Tried == n % Every = 0 \/ (m \in {2, 12} /\ d = MonthLen(y, m))
DateCells == Tried => Dates(Encode(n < 0, Bits(Abs(n), 40), 0)) = {<<y, m, d>>}
\* seconds since the epoch of day n at second s and f/64 s: the double may be negative, the clock never is
DateTimeCells ==
  Tried => \A c \in Clock :
    LET s == c[1] f == c[2]
        us == f * 15625                             \* 1/64 s = 15625 us
        w == IF n >= 0 THEN Encode(FALSE, SecBits(n, s), f)
             ELSE \* -( (-n-1) days + 86400 - s - f/64 )
                  LET lo == 86400 - s - (IF f > 0 THEN 1 ELSE 0) IN Encode(TRUE, SecBits(-n - 1, lo), IF f > 0 THEN 64 - f ELSE 0)
    IN DateTimes(w) = {<<y, m, d, s \div 3600, (s \div 60) % 60, s % 60, us>>}
TimeCells == Tried => \A c \in Clock : Times(Encode(FALSE, SecBits(0, c[1]), c[2])) =
               {<<0, c[1] \div 3600, (c[1] \div 60) % 60, c[1] % 60, c[2] * 15625>>}

ClockQ == {<<0, 0>>, <<86399, 63>>, <<43261, 32>>}
ClockT == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<59, 63>>, <<3599, 0>>, <<86399, 63>>, <<43261, 32>>}
Every50 == {1400 + 50 * k : k \in 0..171}
=============================================================================
