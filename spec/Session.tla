------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One reader over one real file: Reader.tla over the pages SasFile.tla    *)
(* finds in the file's bytes, and the texts its bundled sink has written.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, SasFile, Sinks

Files == ndJsonDeserialize(IOEnv.TRACE_FILES)

-----------------------------------------------------------------------------
\* the pages of a real file.  src = [f, L, eager, fail, g, m]; f is the number of the file
FOf(src) == [b |-> Files[src.f].b, L |-> src.L, eager |-> src.eager, fail |-> src.fail]
NextPageOf(src, pos) ==
  LET F == FOf(src) g == src.g IN
  IF F.eager /\ pos = F.L THEN [t |-> "eof", pos |-> pos, pg |-> NoPage]
  ELSE IF F.fail >= 0 /\ pos + g.pl > F.fail THEN [t |-> "fail", pos |-> pos, pg |-> NoPage]
  ELSE IF pos + g.pl > F.L THEN [t |-> "eof", pos |-> F.L, pg |-> NoPage]
  ELSE [t |-> "page", pos |-> pos + g.pl, pg |-> PageRows(F, g, pos, src.m)]
RowCountOf(src) == src.m.rc
R == INSTANCE Reader WITH NextPage <- NextPageOf, RowCount <- RowCountOf

-----------------------------------------------------------------------------
\* reader states.  ph: "new" (not yet opened) "open" "empty" "refused" "failed" "loose"
NoSrc == [f |-> 0, L |-> 0, eager |-> FALSE, fail |-> -1, g |-> [le |-> TRUE, int |-> 4, pbo |-> 16, hl |-> 0, pl |-> 1], m |-> M0]
Blank(d) == [ph |-> IF d.k = "def" THEN "empty" ELSE "new", d |-> d, src |-> NoSrc, hp |-> <<>>, cols |-> <<>>,
             st |-> R!Start(NoPage, 0), sink |-> d.rid, set |-> FALSE, seen |-> 0, text |-> <<>>]
Empty(r) == [ph |-> "empty", d |-> r.d, src |-> NoSrc, hp |-> <<>>, cols |-> <<>>, st |-> R!Start(NoPage, 0),
             sink |-> 0, set |-> FALSE, seen |-> 0, text |-> <<>>]

SetOfSeq(q) == {q[k] : k \in 1..Len(q)}
FilterOf(d) == [k |-> d.fk, inc |-> SetOfSeq(d.inc), exc |-> SetOfSeq(d.exc)]

MetaProps(m, cols) ==
  [compression |-> m.comp, creator |-> m.creator, proc |-> m.proc, rowlen |-> m.w.rl, rowcount |-> m.w.rc,
   ncols |-> m.w.nc, p1 |-> m.w.p1, p2 |-> m.w.p2, mixrows |-> m.w.mix,
   lcs |-> WordsOf(m.lcs), lcp |-> WordsOf(m.lcp)]

\* what opening the reader must do: [st |-> "ok" | "exc" | "loose", r |-> the reader afterwards]
Opened(r) ==
  LET d == r.d
      F == [b |-> Files[d.f].b, L |-> d.len, eager |-> d.eager, fail |-> d.fail]
      hb == HeaderBad(F)
  IN IF hb # "ok" THEN [st |-> hb, r |-> r]
     ELSE LET g == Geom(F)
              ml == MetaLoop(F, g, g.hl, M0)
              cb == IF ml.fail THEN "exc" ELSE ColumnsBad(ml.m)
              pg == FirstPage(F, g, ml)
              \* no memory for a row to be decompressed into: refusing is as good
              hb2 == IF ml.m.comp # "none" /\ ml.m.rl >= Big THEN "loose" ELSE "ok"
              s == Worse(Worse(Worse(ml.m.st, cb), IF pg.k = "bad" THEN "exc" ELSE "ok"), hb2)
          IN IF s = "exc" THEN [st |-> s, r |-> r]
             ELSE [st |-> s,
                   r |-> [r EXCEPT !.ph = IF s = "loose" THEN "loose" ELSE "open",
                                   !.src = [f |-> d.f, L |-> d.len, eager |-> d.eager, fail |-> d.fail, g |-> g, m |-> [ml.m EXCEPT !.texts = <<>>, !.data = <<>>]],
                                   !.hp = HeaderProps(F),
                                   !.cols = IF s = "loose" THEN <<>> ELSE Columns(ml.m, FilterOf(d)),
                                   !.st = IF s = "loose" THEN R!Start(NoPage, 0) ELSE R!Start(pg, ml.pos)]]

\* rows the csv / print / null sinks receive are not events of their own: run the session up to its return
RECURSIVE DrainSome(_, _), Drain(_)
DrainSome(r, n) ==       \* [t |-> "ret" | "exc" | "loose" | "more", r]
  LET nx == R!Next(r.src, r.st) IN
  IF n = 0 THEN [t |-> "more", r |-> r]
  ELSE IF nx.t = "push"
  THEN LET row == RowAt(FOf(r.src), r.src.g, r.src.m, nx.st.pg, nx.st.k) IN
       IF row.st # "ok" THEN [t |-> row.st, r |-> r]
       ELSE IF OffCalendar(row.b, r.cols, r.src.g.le) THEN [t |-> "loose", r |-> r]
       ELSE DrainSome([r EXCEPT !.st = R!DoPush(nx.st),
                            !.text = IF r.d.sink \in {"csv", "csvfile"} THEN @ \o CsvRow(row.b, r.cols, r.src.g.le)
                                     ELSE IF r.d.sink = "print" THEN @ \o PrintRow(nx.st.row, row.b, r.cols, r.src.g.le)
                                     ELSE @], n - 1)
  ELSE IF nx.t = "eod" THEN DrainSome([r EXCEPT !.st = R!DoEod(nx.st)], n - 1)
  ELSE [t |-> nx.t, r |-> [r EXCEPT !.st = nx.st]]
Drain(r) == LET d == DrainSome(r, 24) IN IF d.t = "more" THEN Drain(d.r) ELSE d      \* (in strides: TLC's stack stays short)

Header(r) ==
  CASE r.d.sink \in {"csv", "csvfile"} -> CsvHeader(r.cols)
    [] r.d.sink = "print" -> PrintHeader(r.hp, MetaProps(r.src.m, r.cols), r.cols)
    [] OTHER -> <<>>

=============================================================================
