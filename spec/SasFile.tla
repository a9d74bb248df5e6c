------------------------------ MODULE SasFile ------------------------------
(***************************************************************************)
(* What the bytes of a SAS7BDAT file mean: header, metadata subheaders,    *)
(* columns, pages, rows, cells.  Pure operators; the reading session that  *)
(* walks over them is Reader.tla.                                          *)
(*                                                                         *)
(* Every parse result carries a status:                                    *)
(*   "ok"    - well formed: the reader must deliver exactly this           *)
(*   "exc"   - malformed: the reader must refuse with an exception         *)
(*   "loose" - malformed in a way for which either is acceptable           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bytes, Calendar, Tables, Rle, Rdc

Magic == <<0,0,0,0,0,0,0,0,0,0,0,0,194,234,129,96,179,20,17,207,189,146,8,0,9,199,49,140,24,31,16,17>>

-----------------------------------------------------------------------------
(* Header.  F = [b |-> file bytes, L |-> number of bytes the source yields] *)

Bits64(b) == At(b, 32) = 51          \* '3'
A1(b) == IF At(b, 35) = 51 THEN 4 ELSE 0
A2(b) == IF Bits64(b) THEN 4 ELSE 0
LE(b) == At(b, 37) = 1

HeaderBad(F) ==
  LET b == F.b IN
  IF F.L < 288 THEN "exc"
  ELSE IF Slice(b, 0, 32) # Magic THEN "exc"
  ELSE LET hl == U32(b, 196 + A1(b), LE(b))
           pl == U32(b, 200 + A1(b), LE(b))
           pb == IF Bits64(b) THEN 32 ELSE 16
       IN  IF hl < 288 + A1(b) + A2(b) THEN "exc"
           ELSE IF F.L < hl THEN "exc"
           ELSE IF F.fail >= 0 /\ F.fail < hl THEN "exc"      \* the source fails inside the header
           ELSE IF pl < pb + 8 THEN "exc"
           ELSE IF pl >= Big THEN "loose"                 \* more than a machine may have memory for
           ELSE "ok"

\* the layout parameters every later step needs
Geom(F) ==
  LET b == F.b IN
  [ le |-> LE(b), int |-> IF Bits64(b) THEN 8 ELSE 4, pbo |-> IF Bits64(b) THEN 32 ELSE 16,
    hl |-> U32(b, 196 + A1(b), LE(b)), pl |-> U32(b, 200 + A1(b), LE(b)) ]

AnyV == <<-1>>      \* stands for "any value": outside the supported calendar
\* acceptable civil forms of a time stamp
StampOf(w) ==
  IF IsNaN(w) THEN {<<>>}
  ELSE IF ~SecondsInRange(w) THEN {AnyV}
  ELSE LET s == Instants(w) IN
       IF \A i \in s : InCalendar(i[1]) THEN {DateTimeOf(i) : i \in s} ELSE {AnyV}

HeaderProps(F) ==
  LET b == F.b a1 == A1(b) t == A1(b) + A2(b) le == LE(b) IN
  [ format   |-> IF Bits64(b) THEN "64bits" ELSE "32bits",
    endian   |-> IF le THEN "little" ELSE "big",
    platform |-> IF At(b, 39) = 49 THEN "unix" ELSE IF At(b, 39) = 50 THEN "windows" ELSE "unknown",
    encoding |-> EncodingOf(At(b, 70)),
    dataset  |-> TrimText(Slice(b, 92, 64)),
    ftype    |-> TrimText(Slice(b, 156, 8)),
    created  |-> StampOf(BE(b, 164 + a1, 8, le)),
    modified |-> StampOf(BE(b, 172 + a1, 8, le)),
    release  |-> TrimText(Slice(b, 216 + t, 8)),
    server   |-> TrimText(Slice(b, 224 + t, 16)),
    ostype   |-> TrimText(Slice(b, 240 + t, 16)),
    osname   |-> IF At(b, 272 + t) # 0 THEN TrimText(Slice(b, 272 + t, 16)) ELSE TrimText(Slice(b, 256 + t, 16)),
    hlen     |-> WordsU32(b, 196 + a1, le),
    plen     |-> WordsU32(b, 200 + a1, le),
    pcount   |-> WordsU32(b, 204 + a1, le) ]

-----------------------------------------------------------------------------
(* Pages.  P = byte offset of the page in the file; all fields relative to it *)

TMETA == 0    TDATA == 256    TMIX1 == 512    TMIX2 == 640    TAMD == 1024
IsMix(t) == t = TMIX1 \/ t = TMIX2
PageType(F, g, P) == U16(F.b, P + g.pbo, g.le)
BlockCount(F, g, P) == U16(F.b, P + g.pbo + 2, g.le)
SubCount(F, g, P) == U16(F.b, P + g.pbo + 4, g.le)
UInt(F, g, o) == IF g.int = 8 THEN U64(F.b, o, g.le) ELSE U32(F.b, o, g.le)
WUInt(F, g, o) == IF g.int = 8 THEN WordsU64(F.b, o, g.le) ELSE WordsU32(F.b, o, g.le)

\* the k-th (from 0) subheader pointer: [st, off, len, comp, typ]
SubPtr(F, g, P, k) ==
  LET o == g.pbo + 8 + k * 3 * g.int IN
  IF o + 3 * g.int > g.pl THEN [st |-> "exc", off |-> 0, len |-> 0, comp |-> 0, typ |-> 0]
  ELSE LET off == UInt(F, g, P + o) len == UInt(F, g, P + o + g.int) IN
       [ st   |-> IF off + len > g.pl THEN "exc" ELSE "ok",
         off  |-> off, len |-> len,
         comp |-> At(F.b, P + o + 2 * g.int), typ |-> At(F.b, P + o + 2 * g.int + 1) ]

Live(s) == s.len # 0 /\ s.comp # 1          \* neither empty nor truncated
IsDataSub(comp, s) == comp # "none" /\ s.comp \in {0, 4} /\ s.typ = 1

-----------------------------------------------------------------------------
(* Metadata subheaders *)

Sig64(hi, lo) == <<hi, lo>>
KindOf(sig, int) ==
  IF int = 8 THEN
    CASE sig \in {<<0,0,0,0,247,247,247,247>>, <<247,247,247,247,0,0,0,0>>} -> "rowsize"
      [] sig \in {<<0,0,0,0,246,246,246,246>>, <<246,246,246,246,0,0,0,0>>} -> "colsize"
      [] sig \in {<<0,252,255,255,255,255,255,255>>, <<255,255,255,255,255,255,252,0>>} -> "counts"
      [] sig \in {<<253,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,253>>} -> "text"
      [] sig = <<255,255,255,255,255,255,255,255>> -> "name"
      [] sig \in {<<252,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,252>>} -> "attr"
      [] sig \in {<<254,251,255,255,255,255,255,255>>, <<255,255,255,255,255,255,251,254>>} -> "fmt"
      [] sig \in {<<254,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,254>>} -> "list"
      [] OTHER -> "other"
  ELSE
    CASE sig = <<247,247,247,247>> -> "rowsize"
      [] sig = <<246,246,246,246>> -> "colsize"
      [] sig \in {<<0,252,255,255>>, <<255,255,252,0>>} -> "counts"
      [] sig \in {<<253,255,255,255>>, <<255,255,255,253>>} -> "text"
      [] sig = <<255,255,255,255>> -> "name"
      [] sig \in {<<252,255,255,255>>, <<255,255,255,252>>} -> "attr"
      [] sig \in {<<254,251,255,255>>, <<255,255,251,254>>} -> "fmt"
      [] sig \in {<<254,255,255,255>>, <<255,255,255,254>>} -> "list"
      [] OTHER -> "other"

Zero4 == <<0, 0, 0, 0>>
M0 == [ st |-> "ok", rl |-> 0, rc |-> 0, mix |-> 0, nc |-> 0, lcs |-> 0, lcp |-> 0,
        comp |-> "none", creator |-> <<>>, proc |-> <<>>,
        w |-> [rl |-> Zero4, rc |-> Zero4, p1 |-> Zero4, p2 |-> Zero4, mix |-> Zero4, nc |-> Zero4],
        texts |-> <<>>, names |-> <<>>, attrs |-> <<>>, fmts |-> <<>>, data |-> <<>> ]

Worse(a, b) == IF a = "exc" \/ b = "exc" THEN "exc" ELSE IF a = "loose" \/ b = "loose" THEN "loose" ELSE "ok"
Flag(m, s) == [m EXCEPT !.st = Worse(@, s)]

\* text pieces (names, labels, formats): nothing when the piece starts with a control character
Piece(texts, idx, off, len) ==
  IF idx >= Len(texts) THEN <<>>
  ELSE LET t == texts[idx + 1]
           o == Min2(off, Len(t))
           n == Min2(len, Len(t) - o)
           p == Slice(t, o, n)
       IN  IF n = 0 \/ IsCtl(p[1]) THEN <<>> ELSE TrimText(p)

RowSizeSub(F, g, P, s, m) ==
  LET o == P + s.off  lcs == IF g.int = 8 THEN 682 ELSE 354  lcp == IF g.int = 8 THEN 706 ELSE 378 IN
  IF s.off + lcp + 2 > g.pl THEN Flag(m, "exc")
  ELSE LET m1 == IF s.off + lcp + 4 > g.pl \/ s.len < lcp + 2 THEN Flag(m, "loose") ELSE m IN
    [m1 EXCEPT !.lcs = U16(F.b, o + lcs, g.le), !.lcp = U16(F.b, o + lcp, g.le),
               !.rl = UInt(F, g, o + 5 * g.int), !.rc = UInt(F, g, o + 6 * g.int), !.mix = UInt(F, g, o + 15 * g.int),
               !.w.rl = WUInt(F, g, o + 5 * g.int), !.w.rc = WUInt(F, g, o + 6 * g.int),
               !.w.p1 = WUInt(F, g, o + 9 * g.int), !.w.p2 = WUInt(F, g, o + 10 * g.int),
               !.w.mix = WUInt(F, g, o + 15 * g.int)]

ColSizeSub(F, g, P, s, m) ==
  IF s.off + 2 * g.int > g.pl THEN Flag(m, "exc")
  ELSE LET m1 == IF s.len < 2 * g.int THEN Flag(m, "loose") ELSE m IN
       [m1 EXCEPT !.nc = UInt(F, g, P + s.off + g.int), !.w.nc = WUInt(F, g, P + s.off + g.int)]

TextSub(F, g, P, s, m) ==
  IF s.off + g.int + 2 > g.pl THEN Flag(m, "exc")
  ELSE
   LET len == U16(F.b, P + s.off + g.int, g.le) IN
   IF s.off + g.int + len > g.pl THEN Flag(m, "exc")
   ELSE
    LET text == Slice(F.b, P + s.off + g.int, len)
        m1 == IF g.int + len > s.len THEN Flag(m, "loose") ELSE m
        m2 == [m1 EXCEPT !.texts = Append(@, text)]
        co == s.off + (IF g.int = 8 THEN 20 ELSE 16)
        str(o, n) == TrimText(Slice(F.b, P + o, n))
    IN IF m.texts # <<>> THEN m2
       ELSE LET m3 == [m2 EXCEPT !.comp = IF Occurs(text, RleName) THEN "RLE"
                                          ELSE IF Occurs(text, RdcName) THEN "RDC" ELSE @] IN
            IF co + 8 > g.pl THEN Flag(m3, "exc")
            ELSE LET c == str(co, 8) IN
              IF c = <<>> THEN (IF co + 16 + m3.lcp > g.pl THEN Flag(m3, "exc")
                                ELSE [m3 EXCEPT !.lcs = 0, !.proc = str(co + 16, m3.lcp)])
              ELSE IF c = RleName THEN (IF co + 24 + m3.lcp > g.pl THEN Flag(m3, "exc")
                                        ELSE [m3 EXCEPT !.proc = str(co + 24, m3.lcp)])
              ELSE IF m3.lcs > 0 THEN (IF co + m3.lcs > g.pl THEN Flag(m3, "exc")
                                       ELSE [m3 EXCEPT !.lcp = 0, !.creator = str(co, m3.lcs)])
              ELSE m3

\* entries of a name / attribute subheader: while off <= len - 12 - int, off starting at int + 8
EntryCount(s, g, size) == IF s.len < 20 + 2 * g.int THEN 0 ELSE (s.len - 20 - 2 * g.int) \div size + 1
NameSub(F, g, P, s, m) ==
  LET n == EntryCount(s, g, 8)
      ent(k) == LET o == P + s.off + g.int + 8 + 8 * (k - 1) IN
                Piece(m.texts, U16(F.b, o, g.le), U16(F.b, o + 2, g.le), U16(F.b, o + 4, g.le))
  IN [m EXCEPT !.names = @ \o [k \in 1..n |-> ent(k)]]

AttrSub(F, g, P, s, m) ==
  LET n == EntryCount(s, g, g.int + 8)
      ent(k) == LET o == P + s.off + g.int + 8 + (g.int + 8) * (k - 1) IN
                [off |-> UInt(F, g, o), len |-> U32(F.b, o + g.int, g.le), wlen |-> WordsU32(F.b, o + g.int, g.le),
                 num |-> At(F.b, o + g.int + 6) = 1]
  IN [m EXCEPT !.attrs = @ \o [k \in 1..n |-> ent(k)]]

FmtSub(F, g, P, s, m) ==
  LET o == s.off + 3 * g.int IN
  IF o + 34 > g.pl THEN Flag(m, "exc")
  ELSE LET u(k) == U16(F.b, P + o + k, g.le)
           m1 == IF s.len < 3 * g.int + 34 THEN Flag(m, "loose") ELSE m IN
       [m1 EXCEPT !.fmts = Append(@, [f |-> Piece(m.texts, u(22), u(24), u(26)), l |-> Piece(m.texts, u(28), u(30), u(32))])]

MetaSub(F, g, P, s, m) ==
  IF m.st = "exc" THEN m
  ELSE IF s.st = "exc" THEN Flag(m, "exc")
  ELSE IF ~Live(s) THEN m
  ELSE IF s.comp = 4 /\ IsDataSub(m.comp, s) THEN [m EXCEPT !.data = Append(@, <<s.off, s.len>>)]
  ELSE IF s.len < g.int THEN (IF IsDataSub(m.comp, s) THEN [m EXCEPT !.data = Append(@, <<s.off, s.len>>)] ELSE m)
  ELSE LET k == KindOf(Slice(F.b, P + s.off, g.int), g.int) IN
       CASE k = "rowsize" -> RowSizeSub(F, g, P, s, m)
         [] k = "colsize" -> ColSizeSub(F, g, P, s, m)
         [] k = "text"    -> TextSub(F, g, P, s, m)
         [] k = "name"    -> NameSub(F, g, P, s, m)
         [] k = "attr"    -> AttrSub(F, g, P, s, m)
         [] k = "fmt"     -> FmtSub(F, g, P, s, m)
         [] k \in {"counts", "list"} -> m
         [] OTHER -> IF IsDataSub(m.comp, s) THEN [m EXCEPT !.data = Append(@, <<s.off, s.len>>)] ELSE m

MetaPage(F, g, P, m) ==
  LET n == SubCount(F, g, P)
      step(acc, k) == MetaSub(F, g, P, SubPtr(F, g, P, k), acc)
  IN  FoldLeftDomain(LAMBDA acc, k : step(acc, k - 1), m, [k \in 1..n |-> 0])

\* the metadata phase: pages from pos on.  Result: [m, pos: after the last page read, page: offset of that page or -1 (end of source),
\* fail: the source failed]
RECURSIVE MetaLoop(_, _, _, _)
MetaLoop(F, g, pos, m) ==
  IF F.eager /\ pos = F.L THEN [m |-> m, pos |-> pos, page |-> -1, fail |-> FALSE]
  ELSE IF F.fail >= 0 /\ pos + g.pl > F.fail THEN [m |-> m, pos |-> pos, page |-> -1, fail |-> TRUE]
  ELSE IF pos + g.pl > F.L THEN [m |-> m, pos |-> F.L, page |-> -1, fail |-> FALSE]
  ELSE LET t  == PageType(F, g, pos)
           m1 == IF t \in {TMETA, TAMD} \/ IsMix(t) THEN MetaPage(F, g, pos, m) ELSE m
       IN  IF m1.st = "exc" \/ t = TDATA \/ IsMix(t) \/ m1.data # <<>>
           THEN [m |-> m1, pos |-> pos + g.pl, page |-> pos, fail |-> FALSE]
           ELSE MetaLoop(F, g, pos + g.pl, m1)

-----------------------------------------------------------------------------
(* Columns *)

TypeOf(num, len, fmt) ==
  IF ~num THEN "string"
  ELSE IF len = 1 \/ len = 2 THEN "integer"
  ELSE IF len < 3 \/ len > 8 THEN "unknown"
  ELSE IF fmt \in DatetimeFormats THEN "datetime"
  ELSE IF fmt \in DateFormats THEN "date"
  ELSE IF fmt \in TimeFormats THEN "time"
  ELSE "number"

ColumnsBad(m) ==
  IF m.nc = 0 THEN "ok"
  ELSE IF m.nc > Len(m.names) \/ m.nc > Len(m.fmts) \/ m.nc > Len(m.attrs) THEN "exc"
  ELSE IF \E k \in 1..m.nc : m.attrs[k].off + m.attrs[k].len > m.rl THEN "exc"
  ELSE "ok"

AllColumns(m) ==
  [k \in 1..m.nc |->
     [name |-> m.names[k], label |-> m.fmts[k].l, format |-> m.fmts[k].f,
      type |-> TypeOf(m.attrs[k].num, m.attrs[k].len, m.fmts[k].f),
      length |-> m.attrs[k].wlen, off |-> m.attrs[k].off, len |-> m.attrs[k].len]]

\* filters: [k |-> "all"] | inc/exc/both (sets of names) | user (set of names, all)
Accepts(flt, name) ==
  CASE flt.k = "inc"  -> name \in flt.inc
    [] flt.k = "exc"  -> name \notin flt.exc
    [] flt.k = "both" -> IF flt.inc # {} THEN name \in flt.inc ELSE name \notin flt.exc
    [] flt.k = "user" -> name \in flt.inc
    [] OTHER          -> TRUE
Columns(m, flt) == SelectSeq(AllColumns(m), LAMBDA c : Accepts(flt, c.name))

-----------------------------------------------------------------------------
(* The rows of a page.  A page object: [k, n rows, subs, off, pos] *)
NoPage == [k |-> "none", n |-> 0, subs |-> <<>>, off |-> 0, pos |-> 0]
FixPage(pos, n, off) == [k |-> "fix", n |-> n, subs |-> <<>>, off |-> off, pos |-> pos]
SubPage(pos, subs) == [k |-> "sub", n |-> Len(subs), subs |-> subs, off |-> 0, pos |-> pos]
BadPage == [k |-> "bad", n |-> 0, subs |-> <<>>, off |-> 0, pos |-> 0]

DataSubs(F, g, P, m) ==
  LET n == SubCount(F, g, P)
      all == [k \in 1..n |-> SubPtr(F, g, P, k - 1)]
  IN  IF \E k \in 1..n : all[k].st = "exc" THEN BadPage
      ELSE SubPage(P, LET keep == SelectSeq(all, LAMBDA s : Live(s) /\ IsDataSub(m.comp, s))
                      IN  [k \in 1..Len(keep) |-> <<keep[k].off, keep[k].len>>])

PageRows(F, g, P, m) ==
  LET t == PageType(F, g, P) IN
  IF t = TMETA THEN LET p == DataSubs(F, g, P, m) IN IF p.k = "sub" /\ p.n = 0 THEN NoPage ELSE p
  ELSE IF t = TDATA THEN FixPage(P, BlockCount(F, g, P), g.pbo + 8)
  ELSE IF IsMix(t) THEN LET o == g.pbo + 8 + SubCount(F, g, P) * 3 * g.int
                        IN  FixPage(P, Min2(m.rc, m.mix), o + (o % 8))
  ELSE NoPage

\* the page the data phase starts with, after the metadata phase
FirstPage(F, g, ml) ==
  IF ml.m.data # <<>> THEN SubPage(ml.page, ml.m.data)
  ELSE IF ml.page < 0 THEN NoPage
  ELSE PageRows(F, g, ml.page, ml.m)

\* row k (from 0) of a page: [st, b]
RowAt(F, g, m, pg, k) ==
  IF pg.k = "fix"
  THEN IF pg.off + (k + 1) * Min2(m.rl, 30000) > g.pl \/ m.rl > g.pl THEN [st |-> "exc", b |-> <<>>]
       ELSE [st |-> "ok", b |-> Slice(F.b, pg.pos + pg.off + k * m.rl, m.rl)]
  ELSE LET s == pg.subs[k + 1]
           raw == Slice(F.b, pg.pos + s[1], s[2])
           r == IF m.comp = "RLE" THEN RleDecode(raw, m.rl) ELSE RdcDecode(raw, m.rl)
       IN  IF s[2] >= m.rl THEN [st |-> "ok", b |-> SubSeq(raw, 1, m.rl)]
           ELSE IF m.rl > 100000 THEN [st |-> "loose", b |-> <<>>]      \* too long to be written out here
           ELSE [st |-> r.st, b |-> r.out]

-----------------------------------------------------------------------------
(* Cells *)
CellBytes(row, c) == Slice(row, c.off, c.len)
\* a numeric cell as 8 bytes, most significant first
Num8(row, c, le) == BE(row, c.off, c.len, le) \o Zeros(8 - c.len)
Int1(row, c) == row[c.off + 1]
Int2(row, c, le) == LET u == U16(row, c.off, le) IN IF u >= 32768 THEN u - 65536 ELSE u
IntOf(row, c, le) == IF c.len = 1 THEN Int1(row, c) ELSE Int2(row, c, le)

\* acceptable observations of temporal cells, AnyV outside the supported calendar
DateTimes(w) == StampOf(w)
Times(w) == IF IsNaN(w) THEN {<<>>} ELSE IF ~SecondsInRange(w) THEN {AnyV}
            ELSE LET s == Instants(w) IN
                 IF \A i \in s : InCalendar(i[1]) THEN {<<0>> \o HMS(i[2], i[3]) : i \in s} ELSE {AnyV}
Dates(w) == IF IsNaN(w) THEN {<<>>} ELSE IF ~DaysInRange(w) THEN {AnyV}
            ELSE LET s == RoundDays(w) IN
                 IF \A d \in s : InCalendar(d) THEN {CivilFromDays(d) : d \in s} ELSE {AnyV}

Fits(v, set) == v \in set \/ AnyV \in set

CellOk(row, c, le, v) ==
  CASE c.type = "string"   -> v = TrimCell(CellBytes(row, c))
    [] c.type = "number"   -> v = Num8(row, c, le)
    [] c.type = "integer"  -> v = <<IntOf(row, c, le)>>
    [] c.type = "datetime" -> Fits(v, DateTimes(Num8(row, c, le)))
    [] c.type = "date"     -> Fits(v, Dates(Num8(row, c, le)))
    [] c.type = "time"     -> Fits(v, Times(Num8(row, c, le)))
    [] OTHER               -> v = <<>>
=============================================================================
