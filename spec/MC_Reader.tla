----------------------------- MODULE MC_Reader -----------------------------
(***************************************************************************)
(* Model checking of the reading session (Reader.tla) over abstract files: *)
(* every page sequence, declared row count and call history within small   *)
(* bounds.  Ghost variables record what an observer of the API sees; the   *)
(* invariants below are properties R01-R05 stated on them, independently   *)
(* of how Reader.tla computes its answers.  With Export = TRUE every       *)
(* completed history is printed; the harness replays them on the real      *)
(* code over files with the same pages.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPages,   \* pages after the metadata
          PageRows,   \* numbers of rows a page may hold
          Slack,      \* the declared row count is the number of stored rows + s - 1 for s in Slack
          Depth,      \* calls per history
          Counts,     \* arguments of read_rows and skip
          Fails,      \* TRUE: also sources that fail while a page is read
          FirstHeld,  \* TRUE: also files whose metadata page holds the first rows
          Export

Kinds == {"fix", "sub", "other"}
PageObj(k, n) == [k |-> IF k = "other" THEN "none" ELSE k, n |-> IF k = "other" THEN 0 ELSE n, kind |-> k]
NoPg == PageObj("other", 0)

\* the abstract source: pages[1] is the last metadata page (it may hold rows), the others follow it.
\* fail = 0: never; otherwise the read of page number fail fails
NextPageA(s, pos) ==
  IF pos + 1 = s.fail THEN [t |-> "fail", pos |-> pos, pg |-> NoPg]
  ELSE IF pos >= Len(s.pages) THEN [t |-> "eof", pos |-> pos, pg |-> NoPg]
  ELSE [t |-> "page", pos |-> pos + 1, pg |-> s.pages[pos + 1]]
RowCountA(s) == s.rc
R == INSTANCE Reader WITH NextPage <- NextPageA, RowCount <- RowCountA

VARIABLES src,      \* the source
          st,       \* the session (Reader.tla)
          hist,     \* calls made so far (kept only when exporting: without it histories are unbounded)
          out,      \* the last row pushed: [i |-> index, id |-> which stored row, prev |-> index of the one before, n |-> how many]
          gone,     \* rows consumed without the sink (skip, read_row_no_sink)
          eods,     \* end_of_data notifications of the call in progress
          got,      \* rows pushed by the call in progress
          last      \* [op, n, val, eods, got, row0]: the last completed call
vars == <<src, st, hist, out, gone, eods, got, last>>

SumTo(pages, k) == LET s[j \in 0..k] == IF j = 0 THEN 0 ELSE s[j - 1] + pages[j].n IN s[k]
Stored(s) == SumTo(s.pages, IF s.fail = 0 THEN Len(s.pages) ELSE s.fail - 1)     \* rows that can ever be read
Avail(s) == IF s.rc < Stored(s) THEN s.rc ELSE Stored(s)
\* which stored row the session is positioned on: pages before the current one, plus the position on it
RowId(s, t) == SumTo(s.pages, t.pos - 1) + t.k

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Firsts == IF FirstHeld THEN {PageObj(k, n) : k \in {"fix", "sub"}, n \in PageRows \ {0}} \cup {NoPg} ELSE {NoPg}
AllPages == {PageObj(k, n) : k \in {"fix", "sub"}, n \in PageRows} \cup {NoPg}

Init ==
  /\ \E f \in Firsts, q \in Seqs(AllPages, MaxPages) :
       LET pages == <<f>> \o q
           n == SumTo(pages, Len(pages))
       IN \E d \in Slack, x \in {0} \cup (IF Fails THEN 2..Len(pages) ELSE {}) :
            /\ n + d >= 1
            \* the reader has stopped on the page that ended the metadata; a first page without rows does not end it, so
            \* the page after it is the current one
            /\ src = [pages |-> pages, rc |-> n + d - 1, fail |-> x]
            /\ IF f.k # "none" THEN st = R!Start(f, 1)
               ELSE LET r == NextPageA(src, 1) IN
                    /\ r.t = "page" /\ r.pg.k = "fix"        \* only a data or mix page follows pure metadata here
                    /\ st = R!Start(r.pg, 2)
  /\ hist = <<>> /\ out = [n |-> 0, i |-> 0, id |-> 0, pos |-> 0, prev |-> -1] /\ gone = 0 /\ eods = 0 /\ got = 0
  /\ last = [op |-> "none", n |-> 0, val |-> 0, eods |-> 0, got |-> 0, row0 |-> 0]

Ops == {<<"row", 1>>, <<"all", 0>>, <<"nosink", 1>>, <<"eod", 0>>} \cup {<<o, n>> : o \in {"rows", "skip"}, n \in Counts}

Call == /\ st.pc = "idle" /\ (Export => Len(hist) < Depth)
        /\ \E o \in Ops : LET s == R!Call(src, st, o[1], o[2]) IN
             /\ st' = s
             /\ hist' = IF Export THEN Append(hist, o) ELSE hist
             /\ gone' = gone + (s.row - st.row)
             /\ last' = [last EXCEPT !.row0 = st.row, !.op = o[1], !.n = o[2]]
        /\ eods' = 0 /\ got' = 0 /\ UNCHANGED <<src, out>>
Busy(t) == st.pc \in {"busy", "ret", "dead"} /\ R!Next(src, st).t = t
Push == /\ Busy("push")
        /\ LET p == R!Next(src, st).st IN
           /\ out' = [i |-> p.row, id |-> RowId(src, p), pos |-> p.pos, n |-> out.n + 1, prev |-> IF out.n = 0 THEN -1 ELSE out.i]
           /\ st' = R!DoPush(p)
        /\ got' = got + 1 /\ UNCHANGED <<src, hist, gone, eods, last>>
Ptr == /\ Busy("ptr")
       /\ st' = R!DoPtr(R!Next(src, st).st)
       /\ gone' = gone + 1 /\ UNCHANGED <<src, hist, out, eods, got, last>>
Eod == /\ Busy("eod")
       /\ st' = R!DoEod(R!Next(src, st).st)
       /\ eods' = eods + 1 /\ UNCHANGED <<src, hist, out, gone, got, last>>
Return == /\ Busy("ret")
          /\ LET p == R!Next(src, st).st IN
             /\ last' = [last EXCEPT !.val = p.val, !.eods = eods, !.got = got]
             /\ st' = R!DoReturn(p)
          /\ UNCHANGED <<src, hist, out, gone, eods, got>>
Raise == /\ Busy("exc")
         /\ st' = [R!Next(src, st).st EXCEPT !.pc = "failed"]
         /\ UNCHANGED <<src, hist, out, gone, eods, got, last>>
Next == Call \/ Push \/ Ptr \/ Eod \/ Return \/ Raise
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Idle == st.pc = "idle"
\* R01: the i-th row pushed under index i is the i-th stored row; no row twice, none out of order
RowsAreTheStoredOnes == out.n > 0 => out.i = out.id /\ out.i < src.rc
RowsInOrder == out.n > 0 => out.prev < out.i
NothingLost == (Idle /\ last.op = "all") => st.row = Avail(src)
\* R02: everything consumed is accounted for, and results say what happened
Accounted == st.row = out.n + gone /\ st.row <= Avail(src)
Results == Idle /\ last.op # "none" =>
  CASE last.op = "row"    -> last.got = last.val /\ last.val = (IF last.row0 < Avail(src) THEN 1 ELSE 0)
    [] last.op = "rows"   -> last.val = (IF last.row0 + last.n <= Avail(src) THEN 1 ELSE 0)
                             /\ last.got = (IF last.val = 1 THEN last.n ELSE Avail(src) - last.row0)
    [] last.op = "skip"   -> last.val = (IF last.row0 + last.n <= Avail(src) THEN 1 ELSE 0) /\ last.got = 0
                             /\ st.row = (IF last.val = 1 THEN last.row0 + last.n ELSE Avail(src))
    [] last.op = "nosink" -> last.val = (IF last.row0 < Avail(src) THEN 1 ELSE 0) /\ last.got = 0
    [] last.op = "eod"    -> last.got = 0 /\ st.row = last.row0
    [] OTHER              -> TRUE
\* R03: end_of_data exactly once by each call that runs out of rows, never before the last row
EodOnce == Idle /\ last.op # "none" =>
  last.eods = (CASE last.op = "eod" -> 1
                 [] last.op = "all" -> 1
                 [] last.op = "nosink" -> 0
                 [] OTHER -> 1 - last.val)
EodAtEnd == eods > 0 /\ st.op \notin {"eod", "none"} => st.row = Avail(src)
\* R04: no page is read before the rows of the pages before it are consumed, none once the declared rows are
PagesFirst == st.pos > (IF src.pages[1].k # "none" THEN 1 ELSE 2) => st.row >= SumTo(src.pages, st.pos - 1)
NotTooFar == out.n > 0 => out.i >= SumTo(src.pages, out.pos - 1) /\ out.i < SumTo(src.pages, out.pos)
EnoughIsEnough == Idle /\ src.rc > 0 /\ st.row = src.rc /\ st.pos > 1 =>
                  SumTo(src.pages, st.pos - 1) < src.rc \/ SumTo(src.pages, IF src.pages[1].k # "none" THEN 1 ELSE 2) >= src.rc
\* R05: a source that fails: an exception, and only rows of the pages before it
FailIsLoud == st.pc = "failed" => src.fail > 0 /\ st.row = Stored(src) /\ st.row < src.rc
FailNotEnd == (src.fail > 0 /\ src.rc > Stored(src)) => (Idle => last.op \notin {"all"})

Done == st.pc = "failed" \/ (Idle /\ Len(hist) = Depth)
Exported == (Export /\ Done) => PrintT("TEST " \o ToJson([pages |-> [k \in 1..Len(src.pages) |-> <<src.pages[k].kind, src.pages[k].n>>],
                                                       rc |-> src.rc, fail |-> src.fail, hist |-> hist]))
=============================================================================
