----------------------------- MODULE TraceBind -----------------------------
(***************************************************************************)
(* Conformance of the Python and R bindings: each recorded session - one   *)
(* reader made from Python or R over a real file, the calls made, the      *)
(* calls its sink received with the values in them - must be a behaviour   *)
(* of Reader.tla over the file's bytes seen through the sinks of           *)
(* Binding.tla.  A call is run to its end by the specification when it is  *)
(* entered; the calls of the user's sink recorded until it returns must    *)
(* then be the expected ones, one by one.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, Compare, Binding

VARIABLES sid, l, s
vars == <<sid, l, s>>

\* s: ph "new" | "open" | "loose" | "refused";  r, b: the reader and its sink;  outs: calls of the user's sink still to
\* come in the call in progress;  end: how that call ends ("ret", "exc", "none" outside a call);  n: handovers so far;
\* alive: the reader still exists
D == Sessions[sid].rd[1]
Py == D.lang = "py"
Blank0 == [ph |-> "new", r |-> Blank(D), b |-> BindStart(D.sink, D.size), outs |-> <<>>, end |-> "none", op |-> "none",
           n |-> 0, alive |-> TRUE, pinned |-> FALSE, boom |-> FALSE]

Bad(why) == [ok |-> FALSE, why |-> why, s |-> s]
Go(s2) == [ok |-> TRUE, why |-> "", s |-> s2]
Judge(why, s2) == IF why = "" THEN Go(s2) ELSE Bad(why)
Loosen == [s EXCEPT !.ph = "loose"]

-----------------------------------------------------------------------------
\* texts.  Python's are decoded, R's end at a NUL
\* (no recursion along the text: TLC's stack stays short)
Utf8(q) ==
  LET follow(c) == IF c >= 194 /\ c <= 223 THEN 1 ELSE IF c >= 224 /\ c <= 239 THEN 2 ELSE IF c >= 240 /\ c <= 244 THEN 3 ELSE 0
      cont(i) == i <= Len(q) /\ q[i] >= 128 /\ q[i] <= 191
  IN \A i \in 1..Len(q) :
       LET c == q[i] IN
       IF c < 128 THEN TRUE
       ELSE IF c <= 191 THEN \E j \in 1..3 : j < i /\ follow(q[i - j]) >= j
       ELSE /\ follow(c) > 0 /\ \A j \in 1..follow(c) : cont(i + j)
            /\ (c = 224 => q[i + 1] >= 160) /\ (c = 237 => q[i + 1] <= 159)
            /\ (c = 240 => q[i + 1] >= 144) /\ (c = 244 => q[i + 1] <= 143)
CutNul(q) == IF \A k \in 1..Len(q) : q[k] # 0 THEN q
             ELSE SubSeq(q, 1, (CHOOSE k \in 1..Len(q) : q[k] = 0 /\ \A j \in 1..(k - 1) : q[j] # 0) - 1)
TextIn(q) == IF Py THEN q ELSE CutNul(q)
Plain(q) == IF Py THEN Utf8(q) ELSE TRUE
HdrTexts == {"encoding", "dataset", "ftype", "release", "server", "ostype", "osname"}
Readable(r) ==
  LET mp == MetaProps(r.src.m, r.cols) IN
  /\ \A k \in HdrTexts : Plain(r.hp[k])
  /\ Plain(mp.creator) /\ Plain(mp.proc)
  /\ \A k \in 1..Len(r.cols) : Plain(r.cols[k].name) /\ Plain(r.cols[k].label) /\ Plain(r.cols[k].format)

\* numbers an R number cannot hold exactly are logged as <<>>
WordKeys == {"hlen", "plen", "pcount", "rowlen", "rowcount", "ncols", "p1", "p2", "mixrows", "lcs", "lcp"}
PropsDiffB(r, e) ==
  LET mp == MetaProps(r.src.m, r.cols)
      val(k) == IF k \in DOMAIN r.hp THEN r.hp[k] ELSE mp[k]
      want == [k \in (DOMAIN r.hp \cup DOMAIN mp) |->
                 IF k \in HdrTexts \cup {"creator", "proc"} THEN TextIn(val(k)) ELSE val(k)]
      p == [k \in DOMAIN e.props |-> IF k \in WordKeys /\ e.props[k] = <<>> /\ want[k][1] >= 32 THEN want[k]
                                     ELSE IF ~Py /\ k \in {"created", "modified"} THEN CHOOSE x \in want[k] : TRUE
                                     ELSE e.props[k]]
      stamp(set, t) == Py \/ LET v == One(set) IN v = <<>> \/ v = AnyV \/ TextMatches(IsoDateTime(v), t)
      cols == [k \in 1..Len(r.cols) |-> [r.cols[k] EXCEPT !.name = TextIn(@), !.label = TextIn(@), !.format = TextIn(@)]]
  IN First(IF Len(e.cols) # Len(r.cols) THEN "number of columns" ELSE "",
     First(IF On("hdr") /\ ~(stamp(want.created, e.props.created) /\ stamp(want.modified, e.props.modified)) THEN "created or modified" ELSE "",
     First(HdrDiff(want, p), First(MetaDiff(want, p), ColsDiff(cols, e.cols, 1)))))

-----------------------------------------------------------------------------
\* cells
CellB(row, c, le, v) ==
  LET w == Num8(row, c, le)
      num == v = w \/ (IsNaN(w) /\ Len(v) = 8 /\ (\A k \in 1..8 : v[k] \in 0..255) /\ IsNaN(v))
      temporal(set) == IF Py THEN Fits(v, set)
                       ELSE LET x == One(set) IN IF x = AnyV THEN TRUE ELSE IF x = <<>> THEN v = <<-1>>
                                                 ELSE TextMatches(CellText(row, c, le), v)
  IN CASE c.type = "string"   -> v = TextIn(TrimCell(CellBytes(row, c)))
       [] c.type = "number"   -> num
       [] c.type = "integer"  -> IF Py THEN v = <<IntOf(row, c, le)>> ELSE Len(v) = 8 /\ (\A k \in 1..8 : v[k] \in 0..255) /\ IsIntDouble(v, IntOf(row, c, le))
       [] c.type = "datetime" -> temporal(DateTimes(w))
       [] c.type = "date"     -> temporal(Dates(w))
       [] c.type = "time"     -> temporal(Times(w))
       [] OTHER               -> v \in {<<>>, <<-1>>} \/ (Len(v) = 8 /\ (\A k \in 1..8 : v[k] \in 0..255) /\ IsNaN(v))
Cols == s.r.cols
Le == s.r.src.g.le
RECURSIVE CellsDiff(_, _, _)
CellsDiff(row, v, k) ==
  IF k > Len(Cols) THEN "" ELSE IF CellB(row, Cols[k], Le, v[k]) THEN CellsDiff(row, v, k + 1)
  ELSE "cell " \o ToString(k) \o " " \o Cols[k].type
NamesOf(q) == [k \in 1..Len(q) |-> TextIn(q[k].name)]
Twice(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]
Amb == Twice(NamesOf(Cols))

\* one row of one value per column, in column order
RowDiffB(item, e) ==
  IF Len(e.c) # Len(Cols) THEN "number of cells"
  ELSE IF "names" \in DOMAIN e /\ e.names # NamesOf(Cols) THEN "names of the cells"
  ELSE IF On("cells") THEN CellsDiff(item.b, e.c, 1) ELSE ""
\* named columns of values: c = <<[n |-> name, v |-> values]>>, at(k) the position of item k in them
ColumnDiff(items, c, v, at(_)) ==
  IF On("cells") /\ \E k \in 1..Len(items) : ~CellB(items[k].b, c, Le, v[at(k)]) THEN "a value of a " \o c.type \o " column" ELSE ""
TableDiff(items, q, at(_), total) ==
  LET of(c) == {k \in 1..Len(q) : q[k].n = TextIn(c.name)}
      one(k) == LET c == Cols[k] w == of(c) IN
                IF w = {} THEN (IF c.type = "unknown" THEN "" ELSE "a column is missing")
                ELSE LET v == q[CHOOSE j \in w : TRUE].v IN
                     IF Len(v) # total THEN "number of values" ELSE ColumnDiff(items, c, v, at)
      diffs == {one(k) : k \in 1..Len(Cols)} \ {""}
  IN IF Amb THEN ""
     ELSE IF Len(q) > Len(Cols) \/ Twice([k \in 1..Len(q) |-> q[k].n]) THEN "number of columns"
     ELSE IF diffs = {} THEN "" ELSE CHOOSE x \in diffs : TRUE
OutDiff(o, e) ==
  LET n == Len(o.items) IN
  IF o.t = "push" THEN First(IF e.i # o.items[1].i THEN "row index" ELSE "", RowDiffB(o.items[1], e))
  ELSE First(IF "a" \in DOMAIN e /\ (e.a # o.items[1].i \/ e.b # o.items[n].i) THEN "first and last row of the chunk" ELSE "",
       First(IF "idx" \in DOMAIN e /\ e.idx # [k \in 1..n |-> o.items[k].i] THEN "row indices" ELSE "",
             TableDiff(o.items, e.c, LAMBDA k : k, n)))

-----------------------------------------------------------------------------
\* run the call in progress to its end: [r, b, outs, t]
RECURSIVE RunSome(_, _, _, _), RunCall(_, _, _)
RunSome(r, b, outs, n) ==
  LET nx == R!Next(r.src, r.st) IN
  IF n = 0 THEN [r |-> r, b |-> b, outs |-> outs, t |-> "more"]
  ELSE IF nx.t = "push"
  THEN LET row == RowAt(FOf(r.src), r.src.g, r.src.m, nx.st.pg, nx.st.k) IN
       IF row.st # "ok" THEN [r |-> r, b |-> b, outs |-> outs, t |-> row.st]
       ELSE IF OffCalendar(row.b, r.cols, r.src.g.le) THEN [r |-> r, b |-> b, outs |-> outs, t |-> "loose"]
       ELSE LET x == BindRow(b, [i |-> nx.st.row, b |-> row.b]) IN
            RunSome([r EXCEPT !.st = R!DoPush(nx.st)], x.b, outs \o x.outs, n - 1)
  ELSE IF nx.t = "eod" THEN LET x == BindEnd(b) IN RunSome([r EXCEPT !.st = R!DoEod(nx.st)], x.b, outs \o x.outs, n - 1)
  ELSE [r |-> [r EXCEPT !.st = nx.st], b |-> b, outs |-> outs, t |-> nx.t]
\* (in strides: TLC's stack stays short)
RunCall(r, b, outs) == LET x == RunSome(r, b, outs, 24) IN IF x.t = "more" THEN RunCall(x.r, x.b, x.outs) ELSE x

Misused == D.bad # "" \/ D.boom = 0      \* opening cannot succeed: not a sink, not a list of names, a sink that refuses
OpenStep(e) ==
  LET o == Opened(s.r)
      opened == [s EXCEPT !.ph = "open", !.r = o.r]
      free == o.st = "loose" \/ (o.st = "ok" /\ ~Readable(o.r))
  IN
  IF e.e = "set" THEN
    IF D.bad # "" THEN Bad("a sink or filter that is none was accepted")
    ELSE IF o.st = "exc" THEN Bad("accepted a malformed file")
    ELSE IF free THEN Go(Loosen)
    ELSE IF D.quiet = 1 THEN Bad("unexpected set_properties")
    ELSE Judge(PropsDiffB(o.r, e), [opened EXCEPT !.ph = IF D.boom = 0 THEN "doomed" ELSE "set"])
  ELSE IF e.e = "exc" THEN
    IF e.op # "open" THEN Bad("exception before opening")
    ELSE IF o.st = "ok" /\ ~free /\ ~Misused THEN Bad("refused a well-formed file")
    ELSE Go([s EXCEPT !.ph = "refused"])
  ELSE IF e.e = "opened" THEN
    IF Misused THEN Bad("a sink or filter that is none was accepted")
    ELSE IF o.st = "exc" THEN Bad("accepted a malformed file")
    ELSE IF free THEN Go(Loosen)
    ELSE IF D.quiet = 0 THEN Bad("set_properties missing")
    ELSE Go(opened)
  ELSE Bad("event before opening")

Boom(n) == D.boom > 0 /\ n = D.boom
CallStep(e) ==
  IF s.end # "none" THEN Bad("call inside a call")
  ELSE IF e.op \in {"flush", "df"}
       THEN LET x == IF s.alive /\ Py THEN BindEnd(s.b) ELSE [b |-> s.b, outs |-> <<>>] IN
            Go([s EXCEPT !.b = x.b, !.outs = IF D.quiet = 1 THEN <<>> ELSE x.outs, !.end = "ret", !.op = e.op])
  ELSE IF ~s.alive THEN Bad("call of a reader that is gone")
  ELSE LET x == RunCall([s.r EXCEPT !.st = R!Call(s.r.src, s.r.st, e.op, e.n)], s.b, <<>>) IN
       IF x.t = "loose" THEN Go(Loosen)
       ELSE Go([s EXCEPT !.r = x.r, !.b = x.b, !.outs = IF D.quiet = 1 THEN <<>> ELSE x.outs, !.end = x.t, !.op = e.op])

RECURSIVE SkipTo(_, _)
\* the first expected call of the kind t, past those that need not happen
SkipTo(q, t) == IF q = <<>> \/ q[1].t = t \/ q[1].must THEN q ELSE SkipTo(Tail(q), t)
OutStep(e) ==
  LET q == SkipTo(s.outs, e.e) IN
  IF s.end = "none" THEN Bad("the sink was called outside a call")
  ELSE IF s.boom THEN Bad("the sink was called after it failed")
  ELSE IF q = <<>> THEN Bad("unexpected " \o e.e)
  ELSE IF q[1].t # e.e THEN Bad("unexpected " \o e.e \o ", " \o q[1].t \o " expected")
  ELSE Judge(OutDiff(q[1], e), [s EXCEPT !.outs = Tail(q), !.n = @ + 1, !.boom = Boom(s.n + 1)])
Missing == \E k \in 1..Len(s.outs) : s.outs[k].must

EndStep(e) ==
  IF s.end = "none" \/ e.op # s.op THEN Bad("end of another call")
  ELSE IF e.e = "exc"
       THEN IF s.boom THEN (IF e.boom = 1 THEN Go(Loosen) ELSE Bad("another exception than the sink raised"))
            ELSE IF s.end # "exc" THEN Bad("exception, " \o s.end \o " expected")
            ELSE IF Missing THEN Bad("rows before the failure are missing") ELSE Go(Loosen)
  ELSE IF s.boom THEN Bad("the sink's exception was swallowed")
  ELSE IF s.end # "ret" THEN Bad("returned, " \o s.end \o " expected")
  ELSE IF Missing THEN Bad("the sink was not called")
  ELSE IF s.op \in {"flush", "df"} THEN Go([s EXCEPT !.end = "none", !.outs = <<>>])
  ELSE IF s.op \notin {"all", "eod"} /\ e.v # s.r.st.val THEN Bad("return value")
  ELSE IF e.idx # s.r.st.row THEN Bad("current_row_index")
  ELSE Go([s EXCEPT !.r = [@ EXCEPT !.st = R!DoReturn(@)], !.end = "none", !.outs = <<>>])

\* the table a bundled sink shows: all rows read so far
Held == s.b.buf # <<>> \/ (s.b.kind = "data" /\ s.b.told < Len(s.b.all))
DfStep(e) ==
  IF s.b.all = <<>> \/ Held \/ (\A k \in 1..Len(Cols) : Cols[k].type = "unknown") THEN Go(s)
  ELSE IF e.none = 1 THEN Bad("no table")
  ELSE IF D.grid = 1 THEN Judge(TableDiff(s.b.all, e.c, LAMBDA k : s.b.all[k].i + 1, s.r.src.m.rc), s)
  ELSE Judge(TableDiff(s.b.all, e.c, LAMBDA k : k, Len(s.b.all)), s)

IsOut(e) == e.e \in {"push", "chunk", "data"}
Given(ev) == LET q == SelectSeq(ev, IsOut) IN [k \in 1..Len(q) |-> q[k].c]

Step(e) ==
  IF e.e = "crash" THEN Bad("the process died")
  ELSE IF e.e = "done" THEN IF s.end # "none" /\ s.ph = "open" THEN Bad("the session ended inside a call") ELSE Go(s)
  ELSE IF e.e = "kept" THEN IF e.outs # Given(Sessions[sid].ev) THEN Bad("values handed out earlier have changed") ELSE Go(s)
  ELSE CASE s.ph = "new" -> OpenStep(e)
         [] s.ph = "doomed" -> IF e.e = "exc" THEN Go([s EXCEPT !.ph = "refused"]) ELSE Bad("the sink's exception was swallowed")
         [] s.ph = "set" -> IF e.e = "opened" THEN Go([s EXCEPT !.ph = "open"]) ELSE Bad(e.e \o " while opening")
         [] s.ph = "refused" -> IF e.e \in {"call", "ret", "exc", "df", "del"} THEN Bad("event of a refused reader") ELSE Go(s)
         [] s.ph = "loose" -> Go(s)
         [] e.e = "call" -> CallStep(e)
         [] IsOut(e) -> IF D.quiet = 1 THEN Bad("event of a sink that does not log") ELSE OutStep(e)
         [] e.e \in {"ret", "exc"} -> EndStep(e)
         [] e.e = "df" -> DfStep(e)
         [] e.e = "props" -> IF "none" \in DOMAIN e THEN Bad("the sink keeps no properties")
                             ELSE IF "names" \in DOMAIN e /\ e.names # NamesOf(Cols) THEN Bad("names of the columns")
                             ELSE Judge(PropsDiffB(s.r, e), s)
         \* properties still in use may keep the reader: the rest of a run may or may not come after all
         [] e.e = "pin" -> Go([s EXCEPT !.pinned = TRUE])
         [] e.e = "del" -> Go([s EXCEPT !.alive = FALSE, !.ph = IF s.pinned /\ Held THEN "loose" ELSE @])
         [] OTHER -> Bad("unexpected " \o e.e)

-----------------------------------------------------------------------------
Init == /\ sid \in 1..Len(Sessions) /\ l = 1 /\ s = Blank0
Consume ==
  /\ l > 0 /\ l <= Len(Sessions[sid].ev)
  /\ LET x == Step(Sessions[sid].ev[l]) IN
     IF x.ok
     THEN /\ s' = x.s /\ l' = l + 1
          /\ (l = Len(Sessions[sid].ev) => PrintT(<<"ACCEPT", Sessions[sid].id, l, IF x.s.ph \in {"loose"} THEN "loose" ELSE "">>))
     ELSE /\ PrintT(<<"REJECT", Sessions[sid].id, l, x.why>>)
          /\ l' = -l /\ UNCHANGED s
  /\ UNCHANGED sid
Spec == Init /\ [][Consume]_vars
TraceView == <<sid, l>>
\* the sink holds back nothing it has handed over, and never a whole chunk
Sane == /\ s.b.size > 0 => Len(s.b.buf) < s.b.size
        /\ Len(s.b.buf) <= Len(s.b.all) /\ s.b.told <= Len(s.b.all)
=============================================================================
