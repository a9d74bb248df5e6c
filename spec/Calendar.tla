------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* IEEE-754 doubles (as 8 bytes, most significant first) and the SAS       *)
(* calendar: days / seconds since 1960-01-01.  Everything is computed on   *)
(* bits and small limbs, so that TLC's 32-bit integers suffice.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bytes

\* ---- the double
Sign(w) == w[1] \div 128
Expo(w) == (w[1] % 128) * 16 + w[2] \div 16
IsNaN(w) == Expo(w) = 2047 /\ (w[2] % 16 # 0 \/ \E i \in 3..8 : w[i] # 0)
IsInf(w) == Expo(w) = 2047 /\ ~IsNaN(w)
BitOf(byte, k) == (byte \div (2^k)) % 2
\* the 53 mantissa bits, most significant first (hidden bit included)
MantBit(w, i) == IF i = 1 THEN (IF Expo(w) = 0 THEN 0 ELSE 1)
                 ELSE LET p == 10 + i             \* absolute bit number, 0 = sign
                      IN  BitOf(w[p \div 8 + 1], 7 - (p % 8))
Mant(w) == [i \in 1..53 |-> MantBit(w, i)]
\* bit i of Mant weighs 2^(E - i + 1) where
E(w) == IF Expo(w) = 0 THEN -1022 ELSE Expo(w) - 1023

\* integer-part bits (most significant first); none when |x| < 1.  Only used for E <= 60
IntBits(w) == LET e == E(w) IN
  IF e < 0 THEN <<>> ELSE [i \in 1..(e + 1) |-> IF i <= 53 THEN MantBit(w, i) ELSE 0]
\* the first 75 fraction bits, as five 15-bit limbs, most significant first
\* fraction bit k (weight 2^-k) is mantissa bit e + 1 + k
RECURSIVE LimbBits(_, _, _, _, _)
LimbBits(w, e, from, k, acc) ==
  IF k = 15 THEN acc
  ELSE LET i == e + 1 + from + k IN LimbBits(w, e, from, k + 1, 2 * acc + (IF i >= 1 /\ i <= 53 THEN MantBit(w, i) ELSE 0))
FracLimbs(w) == LET e == E(w) IN
  IF e >= 52 THEN <<0, 0, 0, 0, 0>>
  ELSE <<LimbBits(w, e, 1, 0, 0), LimbBits(w, e, 16, 0, 0), LimbBits(w, e, 31, 0, 0), LimbBits(w, e, 46, 0, 0), LimbBits(w, e, 61, 0, 0)>>

\* limbs * 1000: <<carry out, limbs>>
RECURSIVE MulLimbs(_, _, _, _)
MulLimbs(l, j, carry, acc) ==
  IF j = 0 THEN <<carry, acc>>
  ELSE LET p == l[j] * 1000 + carry IN MulLimbs(l, j - 1, p \div 32768, <<p % 32768>> \o acc)
Mul1000(l) == MulLimbs(l, Len(l), 0, <<>>)

\* Horner over the integer bits: <<days, seconds of day>> of the integer part
RECURSIVE DaySec(_, _, _, _)
DaySec(bits, i, day, sec) ==
  IF i > Len(bits) THEN <<day, sec>>
  ELSE LET s2 == 2 * sec + bits[i] IN DaySec(bits, i + 1, 2 * day + s2 \div 86400, s2 % 86400)

\* |x| as <<days, secs, floor microseconds, tie class>>; tie class -1/0/1: rest below / at / above half a microsecond
Split(w) ==
  LET ds == DaySec(IntBits(w), 1, 0, 0)
      a  == Mul1000(FracLimbs(w))
      b  == Mul1000(a[2])
      us == a[1] * 1000 + b[1]
      r  == b[2]
      half == r[1] = 16384 /\ \A j \in 2..5 : r[j] = 0
  IN  <<ds[1], ds[2], us, IF half THEN 0 ELSE IF r[1] >= 16384 THEN 1 ELSE -1>>

\* normalise a signed microsecond triple to 0 <= sec < 86400, 0 <= us < 10^6
Norm(day, sec, us) ==
  LET s1 == sec + (us \div 1000000) u1 == us % 1000000
  IN  <<day + (s1 \div 86400), s1 % 86400, u1>>

\* the instants (day, sec, us) a number of seconds may be rounded to: one, or both neighbours of an exact tie
Instants(w) ==
  LET p  == Split(w)
      up == IF p[4] = 1 THEN {p[3] + 1} ELSE IF p[4] = 0 THEN {p[3], p[3] + 1} ELSE {p[3]}
  IN  { IF Sign(w) = 0 THEN Norm(p[1], p[2], u) ELSE Norm(-p[1], -p[2], -u) : u \in up }

\* largest exponent handled: |x| < 2^39 s = 17420 years
SecondsInRange(w) == E(w) < 39 /\ ~IsNaN(w) /\ ~IsInf(w)
DaysInRange(w) == E(w) < 25 /\ ~IsNaN(w) /\ ~IsInf(w)

RECURSIVE IntVal(_, _, _)
IntVal(bits, i, acc) == IF i > Len(bits) THEN acc ELSE IntVal(bits, i + 1, 2 * acc + bits[i])
\* the whole days a number of days may be rounded to
RoundDays(w) ==
  LET n == IntVal(IntBits(w), 1, 0)
      f == FracLimbs(w)
      half == f[1] = 16384 /\ \A j \in 2..5 : f[j] = 0
      cand == IF half THEN {n, n + 1} ELSE IF f[1] >= 16384 THEN {n + 1} ELSE {n}
  IN  { IF Sign(w) = 0 THEN d ELSE -d : d \in cand }

\* ---- civil dates; day 0 = 1960-01-01
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysFromCivil(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy % 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - 715815
CivilFromDays(z0) ==
  LET z   == z0 + 715815
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN  <<y, m, d>>
MinDay == DaysFromCivil(1400, 1, 1)
MaxDay == DaysFromCivil(9999, 12, 31)
InCalendar(day) == day >= MinDay /\ day <= MaxDay

HMS(sec, us) == <<sec \div 3600, (sec \div 60) % 60, sec % 60, us>>
DateTimeOf(i) == CivilFromDays(i[1]) \o HMS(i[2], i[3])
=============================================================================
