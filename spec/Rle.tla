-------------------------------- MODULE Rle --------------------------------
(***************************************************************************)
(* SASYZCRL ("compress=char").  A row is a sequence of commands; the high  *)
(* nibble of the first byte selects the command, the low nibble and, for   *)
(* some, one more byte give the length.                                    *)
(* A decompression is a state machine: src position, bytes produced.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bytes

\* the command at index i (1-based) of src: kind, operand length consumed after the first byte, count
\*  lit: copy n bytes from src;  rep: repeat the operand byte;  set: repeat a fixed byte
Cmd(b, ext) ==
  LET hi == b \div 16 lo == b % 16 IN
  CASE hi = 0  -> [k |-> "lit", x |-> 1, n |-> lo * 256 + ext + 64, v |-> 0]
    [] hi = 4  -> [k |-> "rep", x |-> 1, n |-> lo * 16 + ext + 18, v |-> 0]
    [] hi = 5  -> [k |-> "set", x |-> 1, n |-> lo * 256 + ext + 17, v |-> 64]
    [] hi = 6  -> [k |-> "set", x |-> 1, n |-> lo * 256 + ext + 17, v |-> 32]
    [] hi = 7  -> [k |-> "set", x |-> 1, n |-> lo * 256 + ext + 17, v |-> 0]
    [] hi = 8  -> [k |-> "lit", x |-> 0, n |-> lo + 1, v |-> 0]
    [] hi = 9  -> [k |-> "lit", x |-> 0, n |-> lo + 17, v |-> 0]
    [] hi = 10 -> [k |-> "lit", x |-> 0, n |-> lo + 33, v |-> 0]
    [] hi = 11 -> [k |-> "lit", x |-> 0, n |-> lo + 49, v |-> 0]
    [] hi = 12 -> [k |-> "rep", x |-> 0, n |-> lo + 3, v |-> 0]
    [] hi = 13 -> [k |-> "set", x |-> 0, n |-> lo + 2, v |-> 64]
    [] hi = 14 -> [k |-> "set", x |-> 0, n |-> lo + 2, v |-> 32]
    [] hi = 15 -> [k |-> "set", x |-> 0, n |-> lo + 2, v |-> 0]
    [] OTHER   -> [k |-> "bad", x |-> 0, n |-> 0, v |-> 0]
NeedsExt(b) == (b \div 16) \in {0, 4, 5, 6, 7}

\* one step; result [st |-> "ok" | "exc" | "loose", i, out]
RleStep(src, i, out, n) ==
  LET b == src[i]
      bad(w) == [st |-> w, i |-> i, out |-> out]
  IN
  IF NeedsExt(b) /\ i + 1 > Len(src) THEN bad("exc")
  ELSE
    LET c == Cmd(b, IF NeedsExt(b) THEN src[i + 1] ELSE 0)
        p == i + 1 + c.x                     \* first operand byte
    IN CASE c.k = "bad" -> bad("exc")
         [] c.k = "set" -> IF Len(out) + c.n > n THEN bad("exc")
                           ELSE [st |-> "ok", i |-> p, out |-> out \o Fill(c.v, c.n)]
         [] c.k = "rep" -> IF p > Len(src) \/ Len(out) + c.n > n THEN bad("exc")
                           ELSE [st |-> "ok", i |-> p + 1, out |-> out \o Fill(src[p], c.n)]
         [] OTHER       -> IF p + c.n - 1 > Len(src) THEN bad(IF Len(out) + (Len(src) - p + 1) > n THEN "exc" ELSE "loose")
                           ELSE IF Len(out) + c.n > n THEN bad("exc")
                           ELSE [st |-> "ok", i |-> p + c.n, out |-> out \o SubSeq(src, p, p + c.n - 1)]

RECURSIVE RleRun(_, _, _, _)
RleRun(src, i, out, n) ==
  IF i > Len(src) \/ Len(out) >= n THEN [st |-> "ok", out |-> out \o Zeros(n - Len(out))]
  ELSE LET r == RleStep(src, i, out, n) IN
       IF r.st # "ok" THEN [st |-> r.st, out |-> r.out] ELSE RleRun(src, r.i, r.out, n)

RleDecode(src, n) == RleRun(src, 1, <<>>, n)
=============================================================================
