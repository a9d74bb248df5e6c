------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and the primitive fields of a SAS7BDAT file.  A byte       *)
(* string is a sequence of 0..255; offsets are 0-based as in the file.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

\* TLC's integers are 32 bits wide: larger unsigned fields saturate here.  Nothing that saturates fits any file that is
\* checked, and the exact value of a reported field is compared through Words4 below.
Big == 100000000

At(b, o) == b[o + 1]
Slice(b, o, n) == SubSeq(b, o + 1, o + n)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* n bytes at o, most significant first
BE(b, o, n, le) == IF le THEN [i \in 1..n |-> b[o + n + 1 - i]] ELSE Slice(b, o, n)

U16(b, o, le) == IF le THEN At(b, o) + 256 * At(b, o + 1) ELSE 256 * At(b, o) + At(b, o + 1)

\* saturating value of 4 / 8 big-endian bytes
Sat4(w) == LET hi == w[1] * 256 + w[2] IN
           IF hi >= 1525 THEN Big ELSE hi * 65536 + w[3] * 256 + w[4]
Sat8(w) == IF w[1] + w[2] + w[3] + w[4] # 0 THEN Big ELSE Sat4(SubSeq(w, 5, 8))
U32(b, o, le) == Sat4(BE(b, o, 4, le))
U64(b, o, le) == Sat8(BE(b, o, 8, le))

\* the same fields exactly, as four 16-bit words, most significant first
W16(w, i) == w[i] * 256 + w[i + 1]
Words4of8(w) == <<W16(w, 1), W16(w, 3), W16(w, 5), W16(w, 7)>>
WordsU16(b, o, le) == <<0, 0, 0, U16(b, o, le)>>
WordsU32(b, o, le) == LET w == BE(b, o, 4, le) IN <<0, 0, W16(w, 1), W16(w, 3)>>
WordsU64(b, o, le) == Words4of8(BE(b, o, 8, le))
WordsOf(n) == <<0, 0, n \div 65536, n % 65536>>      \* of a (non-saturated) natural number

IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsPad(c) == c = 0 \/ IsSpace(c)
IsCtl(c) == c < 32 \/ c = 127
\* text of names, labels, header fields: anything that is neither a control character nor DEL
IsText(c) == ~IsCtl(c)

RECURSIVE LeadTo(_, _, _), TrailTo(_, _, _)
\* first index >= i (<= n+1) whose byte is not white space
LeadTo(b, i, n) == IF i <= n /\ IsSpace(b[i]) THEN LeadTo(b, i + 1, n) ELSE i

\* character cells: drop trailing NUL / white space only
RECURSIVE CellEnd(_, _)
CellEnd(b, n) == IF n > 64 /\ \A i \in (n - 63)..n : IsPad(b[i]) THEN CellEnd(b, n - 64)      \* (in strides, for long cells)
                 ELSE IF n > 0 /\ IsPad(b[n]) THEN CellEnd(b, n - 1) ELSE n
TrimCell(b) == SubSeq(b, 1, CellEnd(b, Len(b)))

\* header fields, names, labels, formats: drop leading white space, and trailing white space and control characters
TrailTo(b, lo, n) == IF n >= lo /\ (IsCtl(b[n]) \/ IsSpace(b[n])) THEN TrailTo(b, lo, n - 1) ELSE n
TrimText(b) == LET lo == LeadTo(b, 1, Len(b)) IN SubSeq(b, lo, TrailTo(b, lo, Len(b)))

\* does s occur in t?
Occurs(t, s) == \E i \in 0..(Len(t) - Len(s)) : \A k \in 1..Len(s) : t[i + k] = s[k]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
Fill(v, n) == [i \in 1..n |-> v]
=============================================================================
