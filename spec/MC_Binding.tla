----------------------------- MODULE MC_Binding -----------------------------
(***************************************************************************)
(* Model checking of the binding sinks (Binding.tla) driven by the reading *)
(* session (Reader.tla) over abstract files: P01 / Q01 stated on what the  *)
(* user's sink has been handed, independently of how the sinks decide.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Binding, SequencesExt

CONSTANTS MaxPages, PageRows, Slack, Depth, Counts, Sizes, Kinds

NextPageA(s, pos) == IF pos >= Len(s.pages) THEN [t |-> "eof", pos |-> pos, pg |-> [k |-> "none", n |-> 0]]
                     ELSE [t |-> "page", pos |-> pos + 1, pg |-> s.pages[pos + 1]]
RowCountA(s) == s.rc
R == INSTANCE Reader WITH NextPage <- NextPageA, RowCount <- RowCountA

VARIABLES src, st, b,
          outs,     \* everything handed over: [t, ids]
          consumed, \* indices of the rows read through the sink, in order
          ends,     \* how often the data ended or was flushed
          calls
vars == <<src, st, b, outs, consumed, ends, calls>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Sum(q) == LET s[j \in 0..Len(q)] == IF j = 0 THEN 0 ELSE s[j - 1] + q[j].n IN s[Len(q)]
Init == /\ \E q \in Seqs({[k |-> "fix", n |-> m] : m \in PageRows}, MaxPages), d \in Slack :
             /\ src = [pages |-> q, rc |-> Sum(q) + d]
             /\ st = R!Start(q[1], 1)
        /\ \E k \in Kinds, z \in Sizes : b = BindStart(k, z) /\ (k # "chunk" => z = CHOOSE y \in Sizes : TRUE)
        /\ outs = <<>> /\ consumed = <<>> /\ ends = 0 /\ calls = 0

Ops == {<<"row", 1>>, <<"all", 0>>, <<"eod", 0>>} \cup {<<o, n>> : o \in {"rows", "skip"}, n \in Counts}
Ids(o) == [t |-> o.t, ids |-> o.items, must |-> o.must]
Call == /\ st.pc = "idle" /\ calls < Depth
        /\ \E o \in Ops : st' = R!Call(src, st, o[1], o[2])
        /\ calls' = calls + 1 /\ UNCHANGED <<src, b, outs, consumed, ends>>
Busy(t) == st.pc \in {"busy", "ret"} /\ R!Next(src, st).t = t
Push == /\ Busy("push")
        /\ LET p == R!Next(src, st).st
               r == BindRow(b, p.row)
           IN /\ st' = R!DoPush(p) /\ b' = r.b /\ outs' = outs \o r.outs
              /\ consumed' = Append(consumed, p.row)
        /\ UNCHANGED <<src, ends, calls>>
Eod == /\ Busy("eod")
       /\ LET r == BindEnd(b) IN st' = R!DoEod(R!Next(src, st).st) /\ b' = r.b /\ outs' = outs \o r.outs
       /\ ends' = ends + 1 /\ UNCHANGED <<src, consumed, calls>>
Return == /\ Busy("ret") /\ st' = R!DoReturn(R!Next(src, st).st) /\ UNCHANGED <<src, b, outs, consumed, ends, calls>>
\* the user asks the sink for what it holds (Python's df): no row is read
Flush == /\ st.pc = "idle" /\ calls < Depth
         /\ LET r == BindEnd(b) IN b' = r.b /\ outs' = outs \o r.outs
         /\ calls' = calls + 1 /\ UNCHANGED <<src, st, consumed, ends>>
Next == Call \/ Push \/ Eod \/ Return \/ Flush
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Pieces == [k \in 1..Len(outs) |-> outs[k].items]
\* row and chunk sinks: what was handed over, in the order it was, then what is still held, is exactly what was read
Partition == b.kind \in {"row", "chunk"} => FlattenSeq(Pieces) \o b.buf = consumed
RowByRow == b.kind = "row" => b.buf = <<>> /\ \A k \in 1..Len(outs) : Len(outs[k].items) = 1
\* chunks have the requested size; only the end of a run may be shorter, and nothing is held that should be gone
ChunkSizes == b.kind = "chunk" => /\ \A k \in 1..Len(outs) : Len(outs[k].items) >= 1 /\ (b.size > 0 => Len(outs[k].items) <= b.size)
                                  /\ (b.size > 0 => Len(b.buf) < b.size)
ShortOnlyAtEnds == b.kind = "chunk" => Cardinality({k \in 1..Len(outs) : Len(outs[k].items) # b.size}) <= ends + calls
\* at rest after the end of the data nothing is held back
NothingHeld == st.pc = "ret" /\ st.op \in {"all", "eod"} => b.buf = <<>> /\ (b.kind = "data" => b.told = Len(consumed))
\* a whole-data sink is told all rows read so far, each time
WholeData == b.kind = "data" => \A k \in 1..Len(outs) : outs[k].items = SubSeq(consumed, 1, Len(outs[k].items))
NeverLess == b.kind = "data" => \A j, k \in 1..Len(outs) : j <= k => Len(outs[j].items) <= Len(outs[k].items)
Increasing == \A k \in 1..Len(consumed) - 1 : consumed[k] < consumed[k + 1]
=============================================================================
