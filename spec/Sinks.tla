------------------------------- MODULE Sinks -------------------------------
(***************************************************************************)
(* What the bundled sinks write.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bytes, Text, SasFile

Q == 34
NL == <<10>>
Comma == <<44>>
RECURSIVE Doubled(_, _)
Doubled(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] = Q THEN <<Q, Q>> ELSE <<s[i]>>) \o Doubled(s, i + 1)
Quoted(s) == <<Q>> \o (IF \E i \in 1..Len(s) : s[i] = Q THEN Doubled(s, 1) ELSE s) \o <<Q>>
One(set) == IF \E x, y \in set : x # y THEN AnyV ELSE CHOOSE x \in set : TRUE
OrAny(v, T(_)) == IF v = AnyV THEN AnyText ELSE T(v)

\* ---- CSV.  A number field is any decimal that reads back to the number: -2 and the 8 bytes stand for it
CsvField(row, c, le) ==
  LET w == Num8(row, c, le) IN
  CASE c.type = "string"   -> Quoted(TrimCell(CellBytes(row, c)))
    [] c.type = "integer"  -> DecInt(IntOf(row, c, le))
    [] c.type = "number"   -> IF IsNaN(w) THEN <<>> ELSE <<-2>> \o w
    [] c.type = "datetime" -> OrAny(One(DateTimes(w)), SimpleDateTime)
    [] c.type = "date"     -> OrAny(One(Dates(w)), SimpleDate)
    [] c.type = "time"     -> OrAny(One(Times(w)), SimpleTime)
    [] OTHER               -> <<>>
CsvHeader(cols) == Join([i \in 1..Len(cols) |-> Quoted(cols[i].name)], Comma) \o NL
CsvRow(row, cols, le) == Join([i \in 1..Len(cols) |-> CsvField(row, cols[i], le)], Comma) \o NL

\* ---- Column::to_string.  A missing temporal value has some text, this specification does not say which: AnyText
CellText(row, c, le) ==
  LET w == Num8(row, c, le)
      one(set, T(_)) == LET v == One(set) IN IF v = <<>> \/ v = AnyV THEN AnyText ELSE T(v)
  IN
  CASE c.type = "string"   -> TrimCell(CellBytes(row, c))
    [] c.type = "integer"  -> DecInt(IntOf(row, c, le))
    [] c.type = "number"   -> FixedNum(w)
    [] c.type = "datetime" -> one(DateTimes(w), IsoDateTime)
    [] c.type = "date"     -> one(Dates(w), IsoDate)
    [] c.type = "time"     -> one(Times(w), IsoTime)
    [] OTHER               -> <<>>

\* ---- print; byte strings are written as tuples
Str_Properties == <<80,114,111,112,101,114,116,105,101,115>>
Str_format == <<102,111,114,109,97,116>>
Str_endianness == <<101,110,100,105,97,110,110,101,115,115>>
Str_platform == <<112,108,97,116,102,111,114,109>>
Str_date_created == <<100,97,116,101,32,99,114,101,97,116,101,100>>
Str_date_modified == <<100,97,116,101,32,109,111,100,105,102,105,101,100>>
Str_dataset_name == <<100,97,116,97,115,101,116,32,110,97,109,101>>
Str_encoding == <<101,110,99,111,100,105,110,103>>
Str_file_type == <<102,105,108,101,32,116,121,112,101>>
Str_SAS_release == <<83,65,83,32,114,101,108,101,97,115,101>>
Str_SAS_server_type == <<83,65,83,32,115,101,114,118,101,114,32,116,121,112,101>>
Str_OS_type == <<79,83,32,116,121,112,101>>
Str_OS_name == <<79,83,32,110,97,109,101>>
Str_compression == <<99,111,109,112,114,101,115,115,105,111,110>>
Str_creator == <<99,114,101,97,116,111,114>>
Str_creator_proc == <<99,114,101,97,116,111,114,32,112,114,111,99>>
Str_row_count == <<114,111,119,32,99,111,117,110,116>>
Str_column_count == <<99,111,108,117,109,110,32,99,111,117,110,116>>
Str_Columns == <<67,111,108,117,109,110,115>>
Str_column == <<99,111,108,117,109,110>>
Str_name == <<110,97,109,101>>
Str_label == <<108,97,98,101,108>>
Str_type == <<116,121,112,101>>
Str_Data == <<68,97,116,97>>
NameText(n) ==
  CASE n = "32bits" -> <<51,50,98,105,116,115>>
    [] n = "64bits" -> <<54,52,98,105,116,115>>
    [] n = "little" -> <<108,105,116,116,108,101>>
    [] n = "big" -> <<98,105,103>>
    [] n = "unknown" -> <<117,110,107,110,111,119,110>>
    [] n = "unix" -> <<117,110,105,120>>
    [] n = "windows" -> <<119,105,110,100,111,119,115>>
    [] n = "none" -> <<110,111,110,101>>
    [] n = "RLE" -> <<82,76,69>>
    [] n = "RDC" -> <<82,68,67>>
    [] n = "string" -> <<115,116,114,105,110,103>>
    [] n = "number" -> <<110,117,109,98,101,114>>
    [] n = "integer" -> <<105,110,116,101,103,101,114>>
    [] n = "datetime" -> <<100,97,116,101,116,105,109,101>>
    [] n = "date" -> <<100,97,116,101>>
    [] n = "time" -> <<116,105,109,101>>
KeyLine(k, v) == <<32, 32>> \o k \o <<58, 32>> \o v \o NL
WDec(w) == IF w[1] # 0 \/ w[2] # 0 \/ w[3] >= 16384 THEN AnyText ELSE DecNat(w[3] * 65536 + w[4])
PropsText(hp, mp) ==
  LET stamp(set) == OrAny(One(set), SimpleDateTime) IN
  Str_Properties \o <<58>> \o NL
  \o KeyLine(Str_format, NameText(hp.format)) \o KeyLine(Str_endianness, NameText(hp.endian))
  \o KeyLine(Str_platform, NameText(hp.platform))
  \o KeyLine(Str_date_created, stamp(hp.created)) \o KeyLine(Str_date_modified, stamp(hp.modified))
  \o KeyLine(Str_dataset_name, hp.dataset) \o KeyLine(Str_encoding, hp.encoding)
  \o KeyLine(Str_file_type, hp.ftype) \o KeyLine(Str_SAS_release, hp.release)
  \o KeyLine(Str_SAS_server_type, hp.server) \o KeyLine(Str_OS_type, hp.ostype) \o KeyLine(Str_OS_name, hp.osname)
  \o KeyLine(Str_compression, NameText(mp.compression)) \o KeyLine(Str_creator, mp.creator)
  \o KeyLine(Str_creator_proc, mp.proc) \o KeyLine(Str_row_count, WDec(mp.rowcount))
  \o KeyLine(Str_column_count, WDec(mp.ncols))
RECURSIVE ColumnsText(_, _)
ColumnsText(cols, k) ==
  IF k > Len(cols) THEN <<>>
  ELSE LET c == cols[k] ind == <<32, 32>> IN
       <<32, 32, 45, 32>> \o Str_column \o <<32, 35>> \o DecNat(k - 1) \o NL
       \o ind \o KeyLine(Str_name, c.name) \o ind \o KeyLine(Str_label, c.label)
       \o ind \o KeyLine(Str_format, c.format) \o ind \o KeyLine(Str_type, NameText(c.type))
       \o ColumnsText(cols, k + 1)
RECURSIVE NamesText(_, _)
NamesText(cols, k) == IF k > Len(cols) THEN <<>> ELSE Comma \o cols[k].name \o NamesText(cols, k + 1)
PrintHeader(hp, mp, cols) ==
  PropsText(hp, mp) \o Str_Columns \o <<58>> \o NL \o ColumnsText(cols, 1) \o Str_Data \o <<58>> \o NL
  \o <<35>> \o NamesText(cols, 1) \o NL
PrintRow(idx, row, cols, le) ==
  DecNat(idx) \o FlattenSeq([k \in 1..Len(cols) |-> Comma \o CellText(row, cols[k], le)]) \o NL

\* does the text t read as the expectation e, in which AnyText stands for anything up to the next comma or line end and
\* -2 and 8 bytes for a field that reads back to that number?
RECURSIVE SkipAny(_, _)
SkipAny(t, j) == IF j > Len(t) \/ t[j] = 44 \/ t[j] = 10 THEN j ELSE SkipAny(t, j + 1)
NumberText(w, f) == f = ShortNum(w) \/ ReadsBack(w, f)
Same(e, i, n, t, j) == j + n - 1 <= Len(t) /\ SubSeq(e, i, i + n - 1) = SubSeq(t, j, j + n - 1)
TextMatches(e, t) ==
  \/ e = t
  \/ LET marks == SetToSortSeq({i \in 1..Len(e) : e[i] < 0}, LAMBDA x, y : x < y)
         \* state: how far both have been matched; <<0, 0>> = they differ
         one(st, p) == LET n == p - st[1]
                           j == st[2] + n
                           k == SkipAny(t, j) IN
                       IF st[1] = 0 \/ ~Same(e, st[1], n, t, st[2]) THEN <<0, 0>>
                       ELSE IF e[p] = -1 THEN <<p + 1, k>>
                       ELSE IF NumberText(SubSeq(e, p + 1, p + 8), SubSeq(t, j, k - 1)) THEN <<p + 9, k>> ELSE <<0, 0>>
         end == FoldLeft(one, <<1, 1>>, marks)
     IN /\ end[1] # 0 /\ marks # <<>>
        /\ Len(e) - end[1] = Len(t) - end[2]
        /\ Same(e, end[1], Len(e) - end[1] + 1, t, end[2])

\* a temporal cell outside the supported calendar has no text: writing it may fail
OffCalendar(row, cols, le) ==
  \E k \in 1..Len(cols) : LET c == cols[k] w == Num8(row, c, le) IN
    CASE c.type = "datetime" -> AnyV \in DateTimes(w) [] c.type = "date" -> AnyV \in Dates(w)
      [] c.type = "time" -> AnyV \in Times(w) [] OTHER -> FALSE
=============================================================================
