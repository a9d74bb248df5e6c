------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* The sinks the Python and R bindings put behind a reader:                *)
(*   row    every row is handed to the user's sink as it is read           *)
(*   chunk  rows are gathered; size of them, or the rest at the end of the *)
(*          data (or when asked to flush), are handed over together        *)
(*   data   all rows read so far are handed over at the end of the data    *)
(* An item is one row with its index; Len of an output's items is what the *)
(* user's sink receives in one call.  Independent of what a row is.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* buf: items not handed over yet; all: every item read; told: how many of them a whole-data sink was last given
BindStart(kind, size) == [kind |-> kind, size |-> size, buf |-> <<>>, all |-> <<>>, told |-> 0]

\* outputs: [t |-> "push" | "chunk" | "data", items, must |-> BOOLEAN (the call has to happen)]
Out(t, items, must) == [t |-> t, items |-> items, must |-> must]

\* one row is read: [b |-> state afterwards, outs |-> calls of the user's sink]
BindRow(b, x) ==
  LET c == [b EXCEPT !.all = Append(@, x)] IN
  CASE b.kind = "row" -> [b |-> c, outs |-> <<Out("push", <<x>>, TRUE)>>]
    [] b.kind = "chunk" -> LET q == Append(b.buf, x) IN
                           IF Len(q) = b.size THEN [b |-> [c EXCEPT !.buf = <<>>], outs |-> <<Out("chunk", q, TRUE)>>]
                           ELSE [b |-> [c EXCEPT !.buf = q], outs |-> <<>>]
    [] b.kind = "data" -> [b |-> c, outs |-> <<>>]

\* the end of the data, or a flush
BindEnd(b) ==
  CASE b.kind = "row" -> [b |-> b, outs |-> <<>>]
    [] b.kind = "chunk" -> [b |-> [b EXCEPT !.buf = <<>>], outs |-> IF b.buf = <<>> THEN <<>> ELSE <<Out("chunk", b.buf, TRUE)>>]
    \* nothing new: telling it again what it was told is as good as not
    [] b.kind = "data" -> [b |-> [b EXCEPT !.told = Len(b.all)],
                           outs |-> IF b.all = <<>> THEN <<>> ELSE <<Out("data", b.all, Len(b.all) > b.told)>>]
=============================================================================
