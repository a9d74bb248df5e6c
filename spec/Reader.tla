------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reading session of one reader over one source: which row comes      *)
(* next, what each API call returns, when the sink hears of the end.       *)
(*                                                                         *)
(* The pages come from the operator NextPage(src, pos) - abstract pages in *)
(* the model-checking configurations, pages parsed from real bytes in      *)
(* Trace.tla - so one definition of the session serves both.               *)
(*                                                                         *)
(* Micro-actions (each is one observable step of the implementation):      *)
(*   Call(op, n)   a public method is entered                              *)
(*   Push          one row is handed to the sink                           *)
(*   Ptr           read_row_no_sink obtains a row                          *)
(*   Eod           the sink is told the data ended                         *)
(*   Return        the method returns                                      *)
(* Skipped rows and page changes are internal to Turn / SkipRows.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS NextPage(_, _),   \* [t |-> "page" | "eof" | "fail", pos |-> position afterwards, pg |-> page object]
          RowCount(_)       \* number of rows the file declares

\* st: row = rows consumed; has = a page is current; pg, k = page and rows consumed on it; pos = source position;
\*     pc = "idle" | "busy" | "ret" | "dead"; op, left = call in progress; val = value it will return
Start(pg, pos) == [pc |-> "idle", row |-> 0, has |-> pg.k # "none", pg |-> pg, k |-> 0, pos |-> pos,
                   op |-> "none", left |-> 0, val |-> 0]

\* find the next row: "row" (st positioned on it), "end" or "exc"
RECURSIVE Turn(_, _)
Turn(src, st) ==
  IF st.row >= RowCount(src) \/ ~st.has THEN [t |-> "end", st |-> st]
  ELSE IF st.k < st.pg.n THEN [t |-> "row", st |-> st]
  ELSE LET r == NextPage(src, st.pos) IN
       IF r.t = "eof" THEN [t |-> "end", st |-> [st EXCEPT !.has = FALSE, !.pos = r.pos]]
       ELSE IF r.t = "fail" \/ r.pg.k = "bad" THEN [t |-> "exc", st |-> [st EXCEPT !.has = FALSE, !.pos = r.pos]]
       ELSE Turn(src, [st EXCEPT !.pg = r.pg, !.k = 0, !.pos = r.pos])

Take(st) == [st EXCEPT !.k = @ + 1, !.row = @ + 1]

Min(a, b) == IF a < b THEN a ELSE b
\* skip up to n rows, page by page: [n |-> rows not skipped, t, st]
RECURSIVE SkipRows(_, _, _)
SkipRows(src, st, n) ==
  IF n = 0 THEN [n |-> 0, t |-> "row", st |-> st]
  ELSE LET r == Turn(src, st) IN
       IF r.t # "row" THEN [n |-> n, t |-> r.t, st |-> r.st]
       ELSE LET j == Min(n, Min(r.st.pg.n - r.st.k, RowCount(src) - r.st.row))
            IN  SkipRows(src, [r.st EXCEPT !.k = @ + j, !.row = @ + j], n - j)

Reads == {"row", "rows", "all"}
Unlimited == 2000000000

\* the method is entered; calls that need no row go straight to their return value
Call(src, st, op, n) ==
  LET s == [st EXCEPT !.pc = "busy", !.op = op, !.val = 0,
                      !.left = IF op = "row" \/ op = "nosink" THEN 1 ELSE IF op = "all" THEN Unlimited ELSE n]
  IN  IF op \in {"rows", "skip"} /\ n = 0 THEN [s EXCEPT !.pc = "ret", !.val = 1]
      ELSE IF op = "skip"
           THEN LET r == SkipRows(src, s, n) IN
                IF r.n = 0 THEN [r.st EXCEPT !.pc = "ret", !.val = 1]
                ELSE [r.st EXCEPT !.left = IF r.t = "exc" THEN Unlimited ELSE r.n, !.pc = IF r.t = "exc" THEN "dead" ELSE "busy"]
      ELSE IF op \in {"idx", "props"} THEN [s EXCEPT !.pc = "ret"]
      ELSE s

\* what the session must do next: "push" | "ptr" | "eod" | "ret" | "exc"; nx = the state positioned for it
Next(src, st) ==
  IF st.pc = "dead" THEN [t |-> "exc", st |-> st]
  ELSE IF st.pc = "ret" THEN [t |-> "ret", st |-> st]
  ELSE IF st.op = "eod" THEN [t |-> "eod", st |-> st]
  ELSE IF st.op = "skip" THEN [t |-> "eod", st |-> st]
  ELSE LET r == Turn(src, st) IN
       IF r.t = "exc" THEN [t |-> "exc", st |-> [r.st EXCEPT !.pc = "dead"]]
       ELSE IF st.op = "nosink"
            THEN IF r.t = "row" THEN [t |-> "ptr", st |-> r.st]
                 ELSE [t |-> "ret", st |-> [r.st EXCEPT !.pc = "ret", !.val = 0]]
            ELSE [t |-> IF r.t = "row" THEN "push" ELSE "eod", st |-> r.st]

\* the effects of those steps
DoPush(st) == LET s == [Take(st) EXCEPT !.left = @ - 1] IN
              IF s.left = 0 THEN [s EXCEPT !.pc = "ret", !.val = 1] ELSE s
DoPtr(st) == [Take(st) EXCEPT !.pc = "ret", !.val = 1]
DoEod(st) == [st EXCEPT !.pc = "ret", !.val = 0]
DoReturn(st) == [st EXCEPT !.pc = "idle", !.op = "none", !.left = 0, !.val = 0]
=============================================================================
