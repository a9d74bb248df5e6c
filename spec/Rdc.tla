-------------------------------- MODULE Rdc --------------------------------
(***************************************************************************)
(* SASYZCR2 ("compress=binary", Ross data compression).  16-bit control    *)
(* words; bit 0 = literal byte, bit 1 = a command: short/long repeat of a  *)
(* byte, short/long back-reference (which may overlap its own output).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bytes

\* What becomes of an item that starts within the last two bytes of its source.  "strict": it is executed, as the format
\* demands; "dropped": the deviation recorded in known-findings.txt (D02), only used to recognise exactly that finding;
\* "free": left open, for a check that is not about it (R06 mutates streams at random).
CONSTANT RdcTail

\* bytes a command needs in total, by its first byte
RdcNeed(b) == LET cmd == b \div 16 IN CASE cmd = 0 -> 2 [] cmd = 1 -> 3 [] cmd = 2 -> 3 [] OTHER -> 2
RdcCmd(b, b2, b3) ==
  LET cmd == b \div 16 cnt == b % 16 IN
  CASE cmd = 0 -> [k |-> "rep", n |-> cnt + 3, v |-> b2, ofs |-> 0]
    [] cmd = 1 -> [k |-> "rep", n |-> cnt + 16 * b2 + 19, v |-> b3, ofs |-> 0]
    [] cmd = 2 -> [k |-> "ref", n |-> b3 + 16, v |-> 0, ofs |-> cnt + 3 + 16 * b2]
    [] OTHER   -> [k |-> "ref", n |-> cmd, v |-> 0, ofs |-> cnt + 3 + 16 * b2]

\* the n bytes a reference ofs back produces: the last ofs bytes, repeated
RefBytes(out, ofs, n) == [j \in 1..n |-> out[Len(out) - ofs + 1 + ((j - 1) % ofs)]]

BitAt(ctrl, k) == (ctrl \div (2^(15 - k))) % 2       \* k = 0..15, most significant first

\* one item; ctrl is the control word and k the number of its bits already used
RdcStep(src, i, out, n, flag) ==
  LET bad(w) == [st |-> w, i |-> i, out |-> out] IN
  IF flag = 0 THEN [st |-> "ok", i |-> i + 1, out |-> Append(out, src[i])]
  ELSE LET need == RdcNeed(src[i]) IN
    IF i + need - 1 > Len(src) THEN bad("exc")
    ELSE LET c == RdcCmd(src[i], src[i + 1], IF need = 3 THEN src[i + 2] ELSE 0) IN
      IF Len(out) + c.n > n \/ (c.k = "ref" /\ c.ofs > Len(out)) THEN bad("exc")
      ELSE [st |-> "ok", i |-> i + need,
            out |-> out \o (IF c.k = "rep" THEN Fill(c.v, c.n) ELSE RefBytes(out, c.ofs, c.n))]

\* how many items from bit k on are literals
RECURSIVE LitRun(_, _)
LitRun(ctrl, k) == IF k < 16 /\ BitAt(ctrl, k) = 0 THEN LitRun(ctrl, k + 1) ELSE k

RECURSIVE RdcRun(_, _, _, _, _, _)
RdcRun(src, i, out, n, ctrl, k) ==
  IF Len(out) >= n \/ i > Len(src) \/ (RdcTail = "dropped" /\ k > 0 /\ i > Len(src) - 2)
  THEN [st |-> "ok", out |-> out \o Zeros(n - Len(out))]
  ELSE IF RdcTail = "free" /\ k > 0 /\ k < 16 /\ i > Len(src) - 2 THEN [st |-> "loose", out |-> out]
  ELSE IF k = 16
       THEN IF i + 1 > Len(src) THEN [st |-> "ok", out |-> out \o Zeros(n - Len(out))]
            ELSE RdcRun(src, i + 2, out, n, 256 * src[i] + src[i + 1], 0)
       ELSE LET e == LitRun(ctrl, k) IN
            IF e > k /\ RdcTail = "strict"
            THEN \* literals up to the next command, the end of the source or the end of the row
                 LET m == Min2(e - k, Min2(Len(src) + 1 - i, n - Len(out))) IN
                 RdcRun(src, i + m, out \o SubSeq(src, i, i + m - 1), n, ctrl, k + m)
            ELSE LET r == RdcStep(src, i, out, n, BitAt(ctrl, k)) IN
                 IF r.st # "ok" THEN [st |-> r.st, out |-> r.out] ELSE RdcRun(src, r.i, r.out, n, ctrl, k + 1)

RdcDecode(src, n) == RdcRun(src, 1, <<>>, n, 0, 16)
=============================================================================
