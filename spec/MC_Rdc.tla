------------------------------- MODULE MC_Rdc -------------------------------
(***************************************************************************)
(* A writer of SASYZCR2 streams next to the decoder of Rdc.tla.  The       *)
(* writer appends items (a literal byte or a command) and keeps the items  *)
(* of the open control word; what an item stands for is stated here by     *)
(* copying byte by byte, as the format documents it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Rdc

CONSTANTS Prefixes,   \* numbers of literals written first
          MaxItems,   \* items after them
          Cnts,       \* low nibbles
          Exts,       \* extension bytes of long repeats
          OfsHi,      \* high parts of back-reference distances
          Lens,       \* length bytes of long back-references
          Suffixes,   \* literals after them
          Export
VARIABLES items, want, left
vars == <<items, want, left>>

Lit(j) == (11 + 29 * j + (j \div 5)) % 256
\* an item: [cmd |-> 0/1, b |-> its bytes]
LitItem(v) == [cmd |-> 0, b |-> <<v>>]

RECURSIVE CopyBack(_, _, _)
CopyBack(out, ofs, n) == IF n = 0 THEN out ELSE CopyBack(Append(out, out[Len(out) + 1 - ofs]), ofs, n - 1)

RECURSIVE Lits(_)
Lits(n) == IF n = 0 THEN <<>> ELSE Append(Lits(n - 1), LitItem(Lit(n)))
Init == \E p \in Prefixes : items = Lits(p) /\ want = [j \in 1..p |-> Lit(j)] /\ left = MaxItems

Item(b, out) == items' = Append(items, [cmd |-> 1, b |-> b]) /\ want' = out /\ left' = left - 1
Next ==
  /\ left > 0
  /\ \/ \E c \in Cnts, v \in {0, 200} : Item(<<c, v>>, want \o Fill(v, c + 3))                                \* short repeat
     \/ \E c \in Cnts, x \in Exts : Item(<<16 + c, x, 77>>, want \o Fill(77, 19 + c + 16 * x))                \* long repeat
     \/ \E c \in Cnts, h \in OfsHi, n \in Lens :                                                              \* long reference
          LET ofs == 3 + c + 16 * h IN ofs <= Len(want) /\ Item(<<32 + c, h, n>>, CopyBack(want, ofs, n + 16))
     \/ \E k \in 3..15, c \in Cnts, h \in OfsHi :                                                             \* short reference
          LET ofs == 3 + c + 16 * h IN ofs <= Len(want) /\ Item(<<16 * k + c, h>>, CopyBack(want, ofs, k))
     \/ items' = Append(items, LitItem(5 + left)) /\ want' = Append(want, 5 + left) /\ left' = left - 1
Spec == Init /\ [][Next]_vars

RECURSIVE Word(_, _), Body(_)
Word(q, k) == IF k > 16 THEN 0 ELSE (IF k <= Len(q) /\ q[k].cmd = 1 THEN 2^(16 - k) ELSE 0) + Word(q, k + 1)
Body(q) == IF q = <<>> THEN <<>> ELSE q[1].b \o Body(Tail(q))
RECURSIVE Pack(_)
Pack(q) == IF q = <<>> THEN <<>>
           ELSE LET h == SubSeq(q, 1, Min2(16, Len(q))) w == Word(h, 1)
                IN <<w \div 256, w % 256>> \o Body(h) \o Pack(SubSeq(q, 17, Len(q)))

Finish(s) == items \o [j \in 1..s |-> LitItem(Lit(j + 3))]
Wanted(s) == want \o [j \in 1..s |-> Lit(j + 3)]
DecodesWhatWasWritten ==
  \A s \in Suffixes, r \in {0, 2} :
    LET d == RdcDecode(Pack(Finish(s)), Len(want) + s + r) IN d.st = "ok" /\ d.out = Wanted(s) \o Zeros(r)
TrailingBytesAreIgnored == LET d == RdcDecode(Pack(items) \o <<9, 9, 9>>, Len(want)) IN d.st = "ok" /\ d.out = want
TooShortIsRefused ==
  (left < MaxItems /\ items[Len(items)].cmd = 1) => RdcDecode(Pack(items), Len(want) - 1).st = "exc"
Exported == (Export /\ left < MaxItems) =>
  \A s \in Suffixes : PrintT("TEST " \o ToJson([src |-> Pack(Finish(s)), n |-> Len(want) + s,
                                               tail |-> Len(Finish(s)[Len(Finish(s))].b)]))
=============================================================================
