-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text forms of values, as byte strings: decimal numbers, dates, times.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bytes, Calendar

RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecNat(n \div 10), 48 + (n % 10))
DecInt(n) == IF n < 0 THEN <<45>> \o DecNat(-n) ELSE DecNat(n)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE Fill(48, n - Len(s)) \o s
Pad(n, k) == PadTo(DecNat(n), k)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* ---- integer parts of arbitrary size: base-10000 limbs, least significant first
RECURSIVE DblAdd(_, _, _, _)
DblAdd(l, j, carry, acc) ==
  IF j > Len(l) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET v == 2 * l[j] + carry IN DblAdd(l, j + 1, v \div 10000, Append(acc, v % 10000))
RECURSIVE Limbs10(_, _, _)
Limbs10(bits, i, acc) == IF i > Len(bits) THEN acc ELSE Limbs10(bits, i + 1, DblAdd(acc, 1, bits[i], <<>>))
RECURSIVE LimbText(_, _)
LimbText(l, j) == IF j = 0 THEN <<>> ELSE (IF j = Len(l) THEN DecNat(l[j]) ELSE Pad(l[j], 4)) \o LimbText(l, j - 1)
RECURSIVE IncLimbs(_, _)
IncLimbs(l, j) == IF j > Len(l) THEN Append(l, 1)
                  ELSE IF l[j] = 9999 THEN IncLimbs([l EXCEPT ![j] = 0], j + 1) ELSE [l EXCEPT ![j] = @ + 1]
IntLimbs(w) == Limbs10(IntBits(w), 1, <<0>>)
LimbDec(l) == LimbText(l, Len(l))

NanText(w) == IF Sign(w) = 1 THEN <<45, 110, 97, 110>> ELSE <<110, 97, 110>>      \* -nan / nan
InfText(w) == IF Sign(w) = 1 THEN <<45, 105, 110, 102>> ELSE <<105, 110, 102>>
Neg(w) == IF Sign(w) = 1 THEN <<45>> ELSE <<>>

\* printf("%f"): six decimals, exact ties to even
FixedNum(w) ==
  IF IsNaN(w) THEN NanText(w) ELSE IF IsInf(w) THEN InfText(w)
  ELSE LET a == Mul1000(FracLimbs(w))
           b == Mul1000(a[2])
           us == a[1] * 1000 + b[1]
           r == b[2]
           half == r[1] = 16384 /\ \A j \in 2..5 : r[j] = 0
           up == IF half THEN us % 2 = 1 ELSE r[1] >= 16384
           u2 == IF up THEN us + 1 ELSE us
           il == IF u2 = 1000000 THEN IncLimbs(IntLimbs(w), 1) ELSE IntLimbs(w)
       IN  Neg(w) \o LimbDec(il) \o <<46>> \o Pad(u2 % 1000000, 6)

\* the exact decimal expansion, when it is short: its digits in groups of three, at most 5 groups
RECURSIVE FracGroups(_, _)
FracGroups(l, n) == IF n = 0 \/ \A j \in 1..Len(l) : l[j] = 0 THEN <<l, <<>>>>
                    ELSE LET a == Mul1000(l) r == FracGroups(a[2], n - 1) IN <<r[1], Pad(a[1], 3) \o r[2]>>
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* shortest decimal that reads back: equal to the exact expansion whenever that has at most 15 digits.
\* AnyText when this specification does not determine it.
AnyText == <<-1>>
ShortNum(w) ==
  IF IsInf(w) THEN InfText(w)
  ELSE IF E(w) < -13 /\ Expo(w) # 0 THEN AnyText
  ELSE IF Expo(w) = 0 THEN (IF \A k \in 2..53 : Mant(w)[k] = 0 THEN Neg(w) \o <<48>> ELSE AnyText)
  ELSE IF E(w) > 49 THEN AnyText
  ELSE LET it == LimbDec(IntLimbs(w))
           fg == FracGroups(FracLimbs(w), 5)
           ft == DropZeros(fg[2])
           exact == \A j \in 1..5 : fg[1][j] = 0
       IN  IF ~exact \/ Len(it) + Len(ft) > 15 THEN AnyText
           ELSE Neg(w) \o it \o (IF ft = <<>> THEN <<>> ELSE <<46>> \o ft)

\* ---- does a decimal text read back to this double?  Decided exactly, with numbers of base-32768 limbs, least significant first
RECURSIVE BigMul(_, _, _, _, _), BigMuls(_, _, _), BigCmp(_, _, _)
BigMul(l, j, k, carry, acc) ==       \* l * k + carry, 0 <= k <= 32768
  IF j > Len(l) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET v == l[j] * k + carry IN BigMul(l, j + 1, k, v \div 32768, Append(acc, v % 32768))
BigMuls(l, k, n) == IF n = 0 THEN l ELSE BigMuls(BigMul(l, 1, k, 0, <<>>), k, n - 1)
Big2(l, n) == BigMul(BigMuls(l, 32768, n \div 15), 1, 2^(n % 15), 0, <<>>)
Big10(l, n) == BigMul(BigMuls(l, 10000, n \div 4), 1, 10^(n % 4), 0, <<>>)
RECURSIVE BigTrim(_)
BigTrim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN BigTrim(SubSeq(l, 1, Len(l) - 1)) ELSE l
BigCmp(a, b, j) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                   ELSE IF j = 0 THEN 0 ELSE IF a[j] # b[j] THEN (IF a[j] < b[j] THEN -1 ELSE 1) ELSE BigCmp(a, b, j - 1)
BigLess(a, b) == BigCmp(a, b, Len(a)) < 0
RECURSIVE BigDigits(_, _, _), BigBits(_, _, _), NatOf(_, _, _)
BigDigits(t, i, acc) == IF i > Len(t) THEN acc ELSE BigDigits(t, i + 1, BigMul(acc, 1, 10, t[i] - 48, <<>>))
BigBits(q, i, acc) == IF i > Len(q) THEN acc ELSE BigBits(q, i + 1, BigMul(acc, 1, 2, q[i], <<>>))
NatOf(t, i, acc) == IF i > Len(t) \/ acc > 100000 THEN acc ELSE NatOf(t, i + 1, 10 * acc + t[i] - 48)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE DigitsTo(_, _)
DigitsTo(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsTo(t, i + 1) ELSE i
\* a decimal number [ok, neg, digits, exponent]: digits * 10^exponent
Decimal(t) ==
  LET no == [ok |-> FALSE, neg |-> FALSE, d |-> <<>>, x |-> 0]
      neg == t # <<>> /\ t[1] = 45
      i0 == IF neg THEN 2 ELSE 1
      i1 == DigitsTo(t, i0)
      dot == i1 <= Len(t) /\ t[i1] = 46
      i2 == IF dot THEN DigitsTo(t, i1 + 1) ELSE i1
      ip == SubSeq(t, i0, i1 - 1)
      fp == IF dot THEN SubSeq(t, i1 + 1, i2 - 1) ELSE <<>>
      ex == i2 <= Len(t) /\ t[i2] \in {101, 69}
      sg == ex /\ i2 < Len(t) /\ t[i2 + 1] \in {43, 45}
      i3 == IF ex THEN (IF sg THEN i2 + 2 ELSE i2 + 1) ELSE i2
      i4 == IF ex THEN DigitsTo(t, i3) ELSE i2
      xv == IF ex THEN NatOf(SubSeq(t, i3, i4 - 1), 1, 0) ELSE 0
  IN IF ip \o fp = <<>> \/ i4 # Len(t) + 1 \/ (ex /\ i4 = i3) \/ Len(ip \o fp) > 400 \/ xv > 400 THEN no
     ELSE [ok |-> TRUE, neg |-> neg, d |-> ip \o fp, x |-> (IF sg /\ t[i2 + 1] = 45 THEN -xv ELSE xv) - Len(fp)]
AllZero(q) == \A j \in 1..Len(q) : q[j] = 0
\* the half-open neighbourhood of w every decimal of which reads back as w (its ends too when the last bit of w is 0)
ReadsBack(w, t) ==
  IF IsNaN(w) THEN t = <<>>
  ELSE IF IsInf(w) THEN t = InfText(w)
  ELSE LET p == Decimal(t)
           M == Mant(w)                       \* 53 bits, most significant first
           q == (IF Expo(w) = 0 THEN -1022 ELSE E(w)) - 52
           even == M[53] = 0
           pow2 == Expo(w) > 1 /\ \A j \in 2..53 : M[j] = 0
       IN  /\ p.ok
           /\ p.neg = (Sign(w) = 1)
           /\ IF AllZero(M) THEN \A j \in 1..Len(p.d) : p.d[j] = 48
              ELSE LET D == BigTrim(BigDigits(p.d, 1, <<>>))
                       left == Big2(Big10(D, IF p.x > 0 THEN p.x ELSE 0), IF q - 2 < 0 THEN 2 - q ELSE 0)
                       m4 == BigBits(M \o <<0, 0>>, 1, <<>>)
                       scale(l) == BigTrim(Big10(Big2(l, IF q - 2 > 0 THEN q - 2 ELSE 0), IF p.x < 0 THEN -p.x ELSE 0))
                       down(l, k) == IF l[1] >= k THEN [l EXCEPT ![1] = @ - k]
                                     ELSE [j \in 1..Len(l) |-> IF j = 1 THEN l[1] + 32768 - k
                                                              ELSE IF \A i \in 2..(j - 1) : l[i] = 0
                                                                   THEN (IF l[j] = 0 THEN 32767 ELSE l[j] - 1) ELSE l[j]]
                       lo == scale(BigTrim(down(m4, IF pow2 THEN 1 ELSE 2)))
                       hi == scale([m4 EXCEPT ![1] = @ + 2])
                       L == BigTrim(left)
                   IN IF even THEN ~BigLess(L, lo) /\ ~BigLess(hi, L) ELSE BigLess(lo, L) /\ BigLess(L, hi)

\* ---- dates and times
Months == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
            <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
NotADate == <<110,111,116,45,97,45,100,97,116,101,45,116,105,109,101>>          \* not-a-date-time
ClockText(h, mi, s, us) == Pad(h, 2) \o <<58>> \o Pad(mi, 2) \o <<58>> \o Pad(s, 2)
                           \o (IF us = 0 THEN <<>> ELSE <<46>> \o Pad(us, 6))
IsoDate(d) == Pad(d[1], 4) \o <<45>> \o Pad(d[2], 2) \o <<45>> \o Pad(d[3], 2)
\* boost's default output: 1960-Jan-01
SimpleDate(d) == IF d = <<>> THEN NotADate ELSE Pad(d[1], 4) \o <<45>> \o Months[d[2]] \o <<45>> \o Pad(d[3], 2)
SimpleTime(t) == IF t = <<>> THEN NotADate ELSE ClockText(t[2], t[3], t[4], t[5])
SimpleDateTime(d) == IF d = <<>> THEN NotADate
                     ELSE SimpleDate(d) \o <<32>> \o ClockText(d[4], d[5], d[6], d[7])
IsoDateTime(d) == IsoDate(d) \o <<32>> \o ClockText(d[4], d[5], d[6], d[7])
IsoTime(t) == ClockText(t[2], t[3], t[4], t[5])
=============================================================================
