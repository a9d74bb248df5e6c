------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: every logged session of the real code must be a behaviour  *)
(* of the specification.  One initial state per session; each step         *)
(* consumes one event, applies the specification's own transition          *)
(* (Reader.tla over the pages SasFile.tla finds in the very bytes the code *)
(* read) and compares what the event shows.  The verdict of each session   *)
(* is printed: <<"ACCEPT", id, events>> or <<"REJECT", id, event, why>>.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, Compare

VARIABLES sid, l, rs, lanes
vars == <<sid, l, rs, lanes>>
\* a lane is a line of calls: the session's own, one of its threads, or the calls made inside a push_row.  Lanes are
\* independent; cur is the reader whose call is in progress in the event's lane
Lane == LET e == Sessions[sid].ev[l] IN IF "t" \in DOMAIN e THEN e.t ELSE 0
cur == IF Lane \in DOMAIN lanes THEN lanes[Lane] ELSE 0
Elsewhere(rid) == \E k \in DOMAIN lanes : k # Lane /\ lanes[k] = rid

-----------------------------------------------------------------------------
\* bytes the source has given out (a bundled file source does not tell)
PosBad(r, e, p) == On("pos") /\ ~r.d.file /\ e.pos # p

DayOf(d) == IF d = <<>> \/ d = AnyV THEN d ELSE <<d[1], d[2], d[3]>>
ClockOf(d) == IF d = <<>> \/ d = AnyV THEN d ELSE <<0, d[4], d[5], d[6], d[7]>>
Midnight(d) == IF d = <<>> \/ d = AnyV THEN d ELSE d \o <<0, 0, 0, 0>>
AnyIn(S) == AnyV \in S
FullOk(row, c, le, v) ==
  LET num == c.type \in {"number", "datetime", "date", "time"}
      w == Num8(row, c, le)
      ds == DateTimes(w)
      x == CellText(row, c, le)
  IN
  /\ v.s = (IF c.type = "string" THEN TrimCell(CellBytes(row, c)) ELSE <<>>)
  /\ IF num THEN v.n = w /\ v.nan = (IF IsNaN(w) THEN 1 ELSE 0)
     ELSE IF c.type = "integer" THEN IsIntDouble(v.n, IntOf(row, c, le)) ELSE v.nan = 1
  /\ v.i = (IF c.type = "integer" THEN IntOf(row, c, le) ELSE 0)
  /\ CASE c.type = "datetime" -> Fits(v.dt, ds) /\ (AnyIn(ds) \/ (v.d \in {DayOf(v.dt), <<>>} /\ v.t \in {ClockOf(v.dt), <<>>}))
       [] c.type = "date" -> LET s == Dates(w) IN
                             Fits(v.d, s) /\ (AnyIn(s) \/ (v.dt \in {Midnight(v.d), <<>>} /\ v.t \in {<<>>, <<0, 0, 0, 0, 0>>}))
       [] c.type = "time" -> LET s == Times(w) IN Fits(v.t, s) /\ v.dt = <<>> /\ v.d = <<>>
       [] OTHER -> v.dt = <<>> /\ v.d = <<>> /\ v.t = <<>>
  /\ (v.xok = 1 \/ (num /\ c.type # "number" /\ AnyIn(CASE c.type = "date" -> Dates(w) [] c.type = "time" -> Times(w) [] OTHER -> ds)))
  /\ (On("text") => TextMatches(x, v.x))
RECURSIVE RowDiff(_, _, _, _, _, _)
RowDiff(row, cols, le, v, full, k) ==
  IF k > Len(cols) THEN ""
  ELSE IF (IF full THEN FullOk(row, cols[k], le, v[k]) ELSE CellOk(row, cols[k], le, v[k]))
       THEN RowDiff(row, cols, le, v, full, k + 1)
       ELSE "cell " \o ToString(k) \o " " \o cols[k].type
\* what an event shows of a row: its bytes, one value per column, or the answers of every accessor per column
ContentDiff(row, cols, le, e) ==
  IF ~On("cells") THEN ""
  ELSE IF "raw" \in DOMAIN e THEN (IF e.raw # row THEN "row bytes" ELSE "")
  ELSE IF "v" \in DOMAIN e THEN (IF Len(e.v) # Len(cols) THEN "number of cells" ELSE RowDiff(row, cols, le, e.v, FALSE, 1))
  ELSE IF "f" \in DOMAIN e THEN (IF Len(e.f) # Len(cols) THEN "number of cells" ELSE RowDiff(row, cols, le, e.f, TRUE, 1))
  ELSE ""

-----------------------------------------------------------------------------
\* a step's result: [ok, why, rs, cur]
Bad(why) == [ok |-> FALSE, why |-> why, rs |-> rs, cur |-> cur]
Go(rs2, cur2) == [ok |-> TRUE, why |-> "", rs |-> rs2, cur |-> cur2]
Judge(why, rs2, cur2) == IF why = "" THEN Go(rs2, cur2) ELSE Bad(why)
Loose(r) == [r EXCEPT !.ph = "loose"]

\* first event of a reader that has not been opened yet
OpenStep(e, rid, r) ==
  LET o == Opened(r) IN
  IF e.e = "exc" THEN IF e.op # "open" THEN Bad("exception before opening")
                      ELSE IF o.st = "ok" THEN Bad("refused a well-formed file")
                      ELSE Go([rs EXCEPT ![rid].ph = "refused"], 0)
  ELSE IF o.st = "exc" THEN Bad("accepted a malformed file")
  ELSE IF o.st = "loose" THEN Go([rs EXCEPT ![rid] = [o.r EXCEPT !.ph = "loose"]], IF e.e = "opened" THEN 0 ELSE rid)
  ELSE IF e.e = "set"
       THEN IF r.d.sink # "log" THEN Bad("unexpected set_properties")
            ELSE Judge(First(IF PosBad(o.r, e, o.r.st.pos) THEN "bytes consumed when opening" ELSE "",
                             IF "props" \in DOMAIN e THEN PropsDiff(o.r, e)
                             ELSE IF e.n # Len(o.r.cols) THEN "number of columns" ELSE ""),
                       [rs EXCEPT ![rid] = [o.r EXCEPT !.set = TRUE, !.seen = IF On("setprops") THEN l ELSE 0]], rid)
  ELSE IF e.e \in {"opened", "asked"}
       THEN IF r.d.sink = "log" THEN Bad("set_properties missing")
            ELSE Go([rs EXCEPT ![rid] = [o.r EXCEPT !.text = Header(o.r)]], IF e.e = "opened" THEN 0 ELSE rid)
  ELSE Bad("event before opening")

\* a reader whose state the specification no longer determines: anything but a crash
LooseStep(e, rid, r) ==
  CASE e.e \in {"ret", "exc", "opened"} -> Go(rs, 0)
    [] e.e \in {"mv", "ma"} -> Go([rs EXCEPT ![e.to] = [r EXCEPT !.ph = "loose"], ![rid] = Empty(r)], 0)
    [] OTHER -> Go(rs, rid)

\* after a failure of the source: at most the rows a later retry would find, in order
FailedStep(e, rid, r) ==
  IF e.e \in {"push", "ptr"}
  THEN LET src == [r.src EXCEPT !.fail = -1]
           t == R!Turn(src, r.st)
           row == RowAt(FOf(src), src.g, src.m, t.st.pg, t.st.k)
       IN IF t.t # "row" THEN Bad("a row was invented after a failed read")
          ELSE IF row.st # "ok" THEN Go([rs EXCEPT ![rid] = Loose(r)], rid)
          ELSE IF e.e = "push" /\ On("idx") /\ e.i # WordsOf(t.st.row) THEN Bad("row index after a failed read")
          ELSE IF ContentDiff(row.b, r.cols, src.g.le, e) # "" THEN Bad("row content after a failed read")
          ELSE Go([rs EXCEPT ![rid].st = R!Take(t.st)], rid)
  ELSE LooseStep(e, rid, r)

PushStep(e, rid, r) ==
  LET nx == R!Next(r.src, r.st) IN
  IF nx.t # e.e THEN Bad("unexpected row: " \o nx.t \o " expected")
  ELSE LET row == RowAt(FOf(r.src), r.src.g, r.src.m, nx.st.pg, nx.st.k)
           why == IF e.e = "push" /\ On("idx") /\ e.i # WordsOf(nx.st.row) THEN "row index"
                  ELSE IF e.e = "push" /\ PosBad(r, e, nx.st.pos) THEN "bytes consumed when the row is delivered"
                  ELSE ContentDiff(row.b, r.cols, r.src.g.le, e)
       IN IF row.st = "exc" THEN Bad("delivered a row that does not exist")
          ELSE IF row.st = "loose" THEN Go([rs EXCEPT ![rid] = Loose(r)], cur)
          ELSE Judge(why, [rs EXCEPT ![rid].st = IF e.e = "push" THEN R!DoPush(nx.st) ELSE R!DoPtr(nx.st)], cur)

\* is an exception what the specification expects (or allows) now?
ExcStep(e, rid, r) ==
  LET nx == R!Next(r.src, r.st) IN
  IF e.op # r.st.op THEN Bad("exception from another call")
  ELSE IF nx.t = "exc" THEN Go([rs EXCEPT ![rid].ph = IF NextPageOf(r.src, nx.st.pos).t = "fail" THEN "failed" ELSE "loose"], 0)
  ELSE IF nx.t = "ptr" \/ (nx.t = "push" /\ r.d.sink = "log")
       THEN IF RowAt(FOf(r.src), r.src.g, r.src.m, nx.st.pg, nx.st.k).st # "ok"
            THEN Go([rs EXCEPT ![rid] = Loose(r)], 0) ELSE Bad("exception instead of a row: ")
  ELSE IF nx.t = "push"
       THEN LET d == Drain(r) IN IF d.t \in {"exc", "loose"} THEN Go([rs EXCEPT ![rid] = Loose(r)], 0)
                                    ELSE Bad("exception instead of rows")
  ELSE Bad("exception, " \o nx.t \o " expected")

RetStep(e, rid, r) ==
  LET dr == IF r.d.sink = "log" \/ r.ph = "empty" THEN [t |-> R!Next(r.src, r.st).t, r |-> [r EXCEPT !.st = R!Next(r.src, r.st).st]]
            ELSE Drain(r)
  IN
  IF dr.t = "loose" THEN Go([rs EXCEPT ![rid] = Loose(r)], 0)
  ELSE IF dr.t # "ret" THEN Bad("returned, " \o dr.t \o " expected")
  ELSE IF e.op # r.st.op THEN Bad("return of another call")
  ELSE IF r.st.op \notin {"all", "eod", "idx", "props"} /\ e.v # dr.r.st.val THEN Bad("return value")
  ELSE IF On("idx") /\ e.idx # WordsOf(dr.r.st.row) THEN Bad("current_row_index")
  ELSE IF PosBad(r, e, dr.r.st.pos) THEN Bad("bytes consumed")
  ELSE Go([rs EXCEPT ![rid] = [dr.r EXCEPT !.st = R!DoReturn(dr.r.st)]], 0)

\* the properties the sink was given (event f) and those the reader exposes (event e)
SetDiffers(f, e) == "props" \in DOMAIN f /\ (f.props # e.props \/ f.cols # e.cols)

\* what a reader showed of the dataset itself: its properties but for those of the layout, its columns, its rows, its end
Logical(e) ==
  CASE e.e = "set"  -> [e |-> "set", i |-> Zero4, c |-> e.cols,
                        p |-> <<e.props.platform, e.props.created, e.props.modified, e.props.dataset, e.props.encoding, e.props.ftype,
                                e.props.release, e.props.server, e.props.ostype, e.props.osname, e.props.rowlen, e.props.rowcount,
                                e.props.ncols, e.props.p1, e.props.p2>>]
    [] e.e = "push" -> [e |-> "push", i |-> e.i, c |-> e.v, p |-> <<>>]
    [] OTHER        -> [e |-> "eod", i |-> Zero4, c |-> <<>>, p |-> <<>>]
Shown(ev, rid) == LET q == SelectSeq(ev, LAMBDA e : e.e \in {"set", "push", "eod"} /\ e.r = rid) IN [k \in 1..Len(q) |-> Logical(q[k])]
Disagree(ev) == \E a \in DOMAIN rs : \E b \in DOMAIN rs : a < b /\ Shown(ev, a) # Shown(ev, b)

\* the empty reader: every call returns false / nothing at once
EmptyCall(e, r) == [r EXCEPT !.st = [@ EXCEPT !.pc = "ret", !.op = e.op, !.val = 0]]

Step(e) ==
  IF e.e = "crash" THEN Bad("the process died")
  ELSE IF e.e = "done" THEN IF \E k \in DOMAIN lanes : lanes[k] # 0 /\ rs[lanes[k]].ph \notin {"loose", "failed"} THEN Bad("the session ended inside a call")
                           ELSE IF On("agree") /\ Disagree(Sessions[sid].ev) THEN Bad("readers of one dataset disagree") ELSE Go(rs, 0)
  ELSE IF cur # 0 /\ e.e \in {"set", "push", "eod"}
  THEN \* events of a sink: they carry the id of the reader the sink was given to
       LET r == rs[cur] IN
       IF r.ph \in {"new"} THEN Bad("sink event while opening")
       ELSE IF r.ph = "loose" THEN LooseStep(e, cur, r)
       ELSE IF r.ph = "failed" THEN FailedStep(e, cur, r)
       ELSE IF r.ph # "open" \/ r.sink # e.r THEN Bad("another reader's sink was called")
       ELSE IF e.e = "set" THEN Bad("set_properties again")
       ELSE IF r.st.pc = "idle" THEN Bad("sink called outside a reading call")
       ELSE IF e.e = "push" THEN PushStep(e, cur, r)
       ELSE LET nx == R!Next(r.src, r.st) IN
            IF nx.t = "push" /\ RowAt(FOf(r.src), r.src.g, r.src.m, nx.st.pg, nx.st.k).st = "loose" THEN Go([rs EXCEPT ![cur] = Loose(r)], cur)
            ELSE IF nx.t # "eod" THEN Bad("unexpected end_of_data: " \o nx.t \o " expected")
            ELSE IF PosBad(r, e, nx.st.pos) THEN Bad("bytes consumed at the end of data")
            ELSE Go([rs EXCEPT ![cur].st = R!DoEod(nx.st)], cur)
  ELSE
  LET rid == e.r r == rs[rid] IN
  CASE r.ph = "new" -> OpenStep(e, rid, r)
    [] r.ph = "loose" -> IF e.e = "text" THEN Go(rs, cur) ELSE LooseStep(e, rid, r)
    [] r.ph = "failed" -> FailedStep(e, rid, r)
    [] r.ph = "refused" -> Bad("event of a refused reader")
    [] e.e = "asked" -> IF On("asked") /\ e.names # [k \in 1..Len(AllColumns(r.src.m)) |-> AllColumns(r.src.m)[k].name]
                        THEN Bad("columns the filter was asked about") ELSE Go(rs, cur)
    [] e.e = "opened" -> IF cur # rid \/ r.st.pc # "idle" THEN Bad("opened twice") ELSE Go(rs, 0)
    [] e.e \in {"mv", "ma"} -> Go([rs EXCEPT ![e.to] = r, ![rid] = Empty(r)], 0)
    [] e.e = "call" -> IF cur # 0 \/ Elsewhere(rid) THEN Bad("call inside a call")
                       ELSE Go([rs EXCEPT ![rid] = IF r.ph = "empty" THEN EmptyCall(e, r)
                                                   ELSE [r EXCEPT !.st = R!Call(r.src, r.st, e.op, e.n)]], rid)
    [] e.e = "ptr" -> PushStep(e, rid, r)
    [] e.e = "props" -> IF r.seen > 0 /\ SetDiffers(Sessions[sid].ev[r.seen], e) THEN Bad("properties other than the sink was given")
                        ELSE Judge(PropsDiff(r, e), rs, cur)
    [] e.e = "exc" -> ExcStep(e, rid, r)
    [] e.e = "ret" -> RetStep(e, rid, r)
    [] e.e = "text" -> IF On("text") /\ ~TextMatches(r.text, e.v) THEN Bad("text written") ELSE Go(rs, cur)
    [] OTHER -> Bad("unknown event")

-----------------------------------------------------------------------------
Rids(s) == {Sessions[s].rd[k].rid : k \in 1..Len(Sessions[s].rd)}
DescOf(s, rid) == LET k == CHOOSE j \in 1..Len(Sessions[s].rd) : Sessions[s].rd[j].rid = rid IN Sessions[s].rd[k]

Init == /\ sid \in 1..Len(Sessions)
        /\ l = 1
        /\ rs = [rid \in Rids(sid) |-> Blank(DescOf(sid, rid))]
        /\ lanes = (0 :> 0)

\* "loose" when the specification left some of the session open
Freedom(rs2) == IF \E rid \in DOMAIN rs2 : rs2[rid].ph \in {"loose", "failed"} THEN "loose" ELSE ""

Consume ==
  /\ l > 0
  /\ l <= Len(Sessions[sid].ev)
  /\ LET x == Step(Sessions[sid].ev[l]) IN
     IF x.ok
     THEN /\ rs' = x.rs /\ lanes' = ((Lane :> x.cur) @@ lanes) /\ l' = l + 1
          /\ (l = Len(Sessions[sid].ev) => PrintT(<<"ACCEPT", Sessions[sid].id, l, Freedom(x.rs)>>))
     ELSE /\ PrintT(<<"REJECT", Sessions[sid].id, l, x.why>>)
          /\ l' = -l /\ UNCHANGED <<rs, lanes>>
  /\ UNCHANGED sid
Spec == Init /\ [][Consume]_vars
\* a trace has one state per event: the position identifies it
TraceView == <<sid, l>>

\* invariants of the session state, evaluated in every state of every trace
Sane == \A rid \in DOMAIN rs : LET r == rs[rid] IN
          r.ph = "open" =>
            /\ r.st.row <= r.src.m.rc
            /\ r.st.k <= r.st.pg.n
            /\ r.st.pos <= r.src.L
=============================================================================
