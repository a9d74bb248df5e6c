------------------------------- MODULE MC_Rle -------------------------------
(***************************************************************************)
(* A writer of SASYZCRL streams next to the decoder of Rle.tla: every      *)
(* command sequence within the bounds.  What a command stands for is       *)
(* stated here as the format documents it (Denotes), not as the decoder    *)
(* computes it; D01 is DecodesWhatWasWritten + the two malformed cases.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Rle

CONSTANTS MaxCmds, Nibbles, Exts, Operands, Rooms, Mid, Export

VARIABLES cmds, src, want
vars == <<cmds, src, want>>

\* the thirteen commands, by the high nibble of their first byte
Codes == {0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
Wide == {0, 4, 5, 6, 7}
Lit(n, v) == [j \in 1..n |-> (v + 7 * j) % 256]
\* [bytes after the first two, what it stands for]
Denotes(c, nib, ext, v) ==
  CASE c = 0  -> LET n == 64 + 256 * nib + ext IN <<Lit(n, v), Lit(n, v)>>     \* COPY64
    [] c = 4  -> <<<<v>>, Fill(v, 18 + 16 * nib + ext)>>                       \* INSERT_BYTE18
    [] c = 5  -> <<<<>>, Fill(64, 17 + 256 * nib + ext)>>                      \* INSERT_AT17
    [] c = 6  -> <<<<>>, Fill(32, 17 + 256 * nib + ext)>>                      \* INSERT_BLANK17
    [] c = 7  -> <<<<>>, Fill(0, 17 + 256 * nib + ext)>>                       \* INSERT_ZERO17
    [] c = 8  -> <<Lit(1 + nib, v), Lit(1 + nib, v)>>                          \* COPY1
    [] c = 9  -> <<Lit(17 + nib, v), Lit(17 + nib, v)>>                        \* COPY17
    [] c = 10 -> <<Lit(33 + nib, v), Lit(33 + nib, v)>>                        \* COPY33
    [] c = 11 -> <<Lit(49 + nib, v), Lit(49 + nib, v)>>                        \* COPY49
    [] c = 12 -> <<<<v>>, Fill(v, 3 + nib)>>                                   \* INSERT_BYTE3
    [] c = 13 -> <<<<>>, Fill(64, 2 + nib)>>                                   \* INSERT_AT2
    [] c = 14 -> <<<<>>, Fill(32, 2 + nib)>>                                   \* INSERT_BLANK2
    [] c = 15 -> <<<<>>, Fill(0, 2 + nib)>>                                    \* INSERT_ZERO2

Init == cmds = <<>> /\ src = <<>> /\ want = <<>>
Write(c, nib, ext, v) ==
  LET d == Denotes(c, nib, ext, v) IN
  /\ cmds' = Append(cmds, <<c, nib, ext, v>>)
  /\ src' = src \o <<16 * c + nib>> \o (IF c \in Wide THEN <<ext>> ELSE <<>>) \o d[1]
  /\ want' = want \o d[2]
Next == /\ Len(cmds) < MaxCmds
        /\ \E c \in Codes, nib \in Nibbles, v \in Operands :
             \E ext \in (IF c \in Wide THEN Exts ELSE {0}) :
               \* after the first command only the lengths in Mid: pairs and triples stay few
               /\ (cmds = <<>> \/ nib \in Mid)
               /\ Write(c, nib, ext, v)
Spec == Init /\ [][Next]_vars

\* decoded in any row with room for it, with the rest of the row zero; in a row that is exactly full nothing else is read
DecodesWhatWasWritten ==
  \A r \in Rooms :
    LET n == Len(want) + r d == RleDecode(src, n) IN d.st = "ok" /\ d.out = want \o Zeros(r)
TrailingBytesAreIgnored == LET d == RleDecode(src \o <<240>>, Len(want)) IN d.st = "ok" /\ d.out = want
\* a row too short for what the commands stand for is refused
TooShortIsRefused == Len(want) > 1 /\ Len(cmds) = 1 => RleDecode(src, Len(want) - 1).st = "exc"
\* a command without its operand is refused
CutIsRefused == Len(cmds) = 1 /\ cmds[1][1] \in {4, 12} => RleDecode(SubSeq(src, 1, Len(src) - 1), Len(want)).st = "exc"
Exported == (Export /\ cmds # <<>>) => PrintT("TEST " \o ToJson([src |-> src, n |-> Len(want), cmds |-> cmds]))
=============================================================================
