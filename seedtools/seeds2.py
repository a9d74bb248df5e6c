import random, struct
from mkseed import seed, H
from sasgen import *

L32, L64 = L(32, True), L(64, True)
B32, B64 = L(32, False), L(64, False)


def f(l, cols, rows, **k):
    k.setdefault('page_length', 2048)
    k.setdefault('extra', False)
    return build(l, cols, rows, rng=random.Random(3), noise=False, **k)


def num(n, fmt='', length=8, label=''):
    return Col(n, length, 'num', fmt, label)


def main():
    M = 'src/metadata.hpp'
    # ---- M01
    cols = [num('A', 'BEST', label='first label'), num('B', 'DATETIME', label='a label in another block')]
    seed('M01-label-block-of-format', 'M01', 'a column whose format and label lie in different text blocks',
         'the label is taken from the text block of the format',
         [(M, "        get_column_text_substr(label_idx, label_offset, label_length);", "        get_column_text_substr(format_idx, label_offset, label_length);")],
         {'a.sas7bdat': f(L32, cols, [L32.num(1.) + L32.num(2.)], maxblock=64, creator_proc=b'')}, [['open=a.sas7bdat', 'show', 'all']])

    cols = [num('C%d' % i, '', 1 + i % 8 if i % 8 else 3) for i in range(40)]
    rowlen = sum(c.length for c in cols)
    row = bytes(range(1, 256))[:rowlen].ljust(rowlen, b'\x41')
    seed('M01-attributes-one-short', 'M01', 'column attributes spread over several subheaders whose padding is the shortest allowed',
         'the last column of an attributes subheader is dropped',
         [(M, "         offset + 12 + integer_size <= offset_end; offset += integer_size + 8) {",
           "         offset + 12 + integer_size < offset_end; offset += integer_size + 8) {")],
         {'a.sas7bdat': f(L64, cols, [row], attrs_per_sub=13, names_per_sub=17)}, [['open=a.sas7bdat', 'show', 'all']]) if False else None

    # ---- M02
    seed('M02-rare-date-format', 'M02', 'a column with the date format YYQRS',
         'columns of one of the date formats become numbers',
         [(M, """    "YYQRD",    "YYQRP",    "YYQRS",    "YYQRN",   "YYMMDDP", "YYMMDDC",""", """    "YYQRD",    "YYQRP",    "YYQRN",    "YYMMDDP", "YYMMDDC",""")],
         {'a.sas7bdat': f(L32, [num('A', 'YYQRS'), num('B', 'YYQRP')], [L32.num(100.) * 2])}, [['open=a.sas7bdat', 'show', 'all']])
    seed('M02-six-bytes-no-date', 'M02', 'a date stored in six bytes',
         'a number of six bytes is never a date, a time or a datetime',
         [(M, "        if (column_length == 1)\n          add_column(\n              FORMATTER::SmallIntegerFormatter(column_offset, column_length));",
           """        if (column_length == 1)
              add_column(
                  FORMATTER::SmallIntegerFormatter(column_offset, column_length));
            else if (column_length == 6)
              add_column(FORMATTER::IncompleteDoubleFormatter<_endian, 6>(
                  column_offset, column_length));""")],
         {'a.sas7bdat': f(B64, [num('A', 'DATE', 6), num('B', 'TIME', 5)], [B64.num(100., 6) + B64.num(50., 5)])}, [['open=a.sas7bdat', 'show', 'all']])

    # ---- M03
    cols = [num('A'), num('SASYZCRL_B', label='SASYZCRL')]
    seed('M03-compression-anywhere', 'M03', 'a column name or label with the text SASYZCRL in a later text block of an uncompressed file',
         'an uncompressed file is taken for a compressed one',
         [(M, """    if (column_texts.size() == 1) {
          if (text.find(RLE_COMPRESSION) != text.npos)
            _metadata->compression = Compression::RLE;
          else if (text.find(RDC_COMPRESSION) != text.npos)
            _metadata->compression = Compression::RDC;
    """, """    if (text.find(RLE_COMPRESSION) != text.npos)
          _metadata->compression = Compression::RLE;
        else if (text.find(RDC_COMPRESSION) != text.npos)
          _metadata->compression = Compression::RDC;
        if (column_texts.size() == 1) {
    """)],
         {'a.sas7bdat': f(L32, cols, [L32.num(1.) * 2], maxblock=40)}, [['open=a.sas7bdat', 'show', 'all']])

    # ---- V01
    seed('V01-unsigned-short', 'V01', 'a negative number in a numeric column of two bytes',
         'negative two-byte integers turn positive',
         [(M, "          add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(", "          add_column(FORMATTER::IntegerFormatter<_endian, uint16_t>(")],
         {'a.sas7bdat': f(L32, [num('A', '', 2), num('B', '', 1)], [struct.pack('<h', v) + b'\x80' for v in (5, -1, -32768, 32767)])},
         [['open=a.sas7bdat', 'show', 'all']])
    # ---- V02
    seed('V02-microseconds-truncated', 'V02', 'a datetime whose fraction of a second is just below a whole number of microseconds',
         'microseconds are cut instead of rounded',
         [('src/types.hpp', "  const auto _microseconds = std::round((_seconds - _secs) * 1e6);", "  const auto _microseconds = std::trunc((_seconds - _secs) * 1e6);")],
         {'a.sas7bdat': f(L32, [num('A', 'DATETIME'), num('B', 'TIME')], [L32.num(v) * 2 for v in (1.0, 1e9 + .123457, 12345.6789, 3600.000007)])},
         [['open=a.sas7bdat', 'all']])
    seed('V02-date-floor', 'V02', 'a date value with a fraction of a day', 'dates are rounded down instead of to the nearest day',
         [('src/types.hpp', """  ptime start(boost::gregorian::date(1960, 1, 1));
      return (start + days(std::lround(_days))).date();""", """  ptime start(boost::gregorian::date(1960, 1, 1));
      return (start + days(static_cast<long>(_days))).date();""")],
         {'a.sas7bdat': f(L32, [num('A', 'DATE')], [L32.num(v) for v in (1.0, 2.6, -2.6, 20000.9)])}, [['open=a.sas7bdat', 'all']])

    # ---- V03
    seed('V03-trims-controls', 'V03', 'a text cell that ends in a control character', 'control characters at the end of a text are dropped',
         [('src/types.hpp', """         (_buf[_length - 1] == 0 || std::isspace(_buf[_length - 1]))) {
        --_length;""", """         (_buf[_length - 1] < ' ' || std::isspace(_buf[_length - 1]))) {
        --_length;""")],
         {'a.sas7bdat': f(L32, [Col('A', 8, 'chr'), Col('B', 4, 'chr')], [b'ab\x01\x1b    cd\x02 ', b'\x01'.ljust(8) + b'x\t\0 '])}, [['open=a.sas7bdat', 'all']])

    # ---- F01
    F = 'include/cppsas7bdat/filter/column.hpp'
    seed('F01-both-lists', 'F01', 'a filter with both a list of included and a list of excluded columns that share a name',
         'the list of excluded columns is applied to included ones',
         [(F, """      return is_included(_name);
        if (!excluded.empty())
          return !is_excluded(_name);""", """      return is_included(_name) && !is_excluded(_name);
        if (!excluded.empty())
          return !is_excluded(_name);""")],
         {'a.sas7bdat': f(L32, [num('A'), num('B'), num('C')], [L32.num(1.) * 3])},
         [['inc=A', 'inc=B', 'exc=B', 'open=a.sas7bdat', 'show', 'all']])
    seed('F01-filter-hides-later', 'F01', 'a filter that rejects a column of unknown type',
         'a rejected column of unsupported type is shown all the same',
         [(M, "        if (!_filter || _filter->accept(column))\n", "        if (!_filter || column.type == Type::unknown || _filter->accept(column))\n")],
         {'a.sas7bdat': f(L32, [num('A'), num('B', '', 9), num('C')], [L32.num(1.) + bytes(9) + L32.num(2.)])},
         [['exc=B', 'open=a.sas7bdat', 'show', 'all']])

    # ---- L01
    cols = [num('A'), Col('B', 5, 'chr')]
    seed('S01-sixteen-digits', 'S01', 'a number that needs seventeen digits', 'numbers in csv do not read back as the same number',
         [(C, "      fmt::print(os, \"{}\", _x);\n  }\n  void print(const INTEGER", "      fmt::print(os, \"{:.16g}\", _x);\n  }\n  void print(const INTEGER")],
         {'a.sas7bdat': f(L32, [num('A')], [L32.num(v) for v in (.1, 1e22, 2. / 3, .1 + .2, 1 / 49. * 49)])}, [['csv=a.sas7bdat', 'all', 'text']])
    seed('S01-unknown-takes-no-field', 'S01', 'a csv of a file with a column of unknown type that is not the last one',
         'columns of unknown type have no field in the rows, which shifts the fields behind them',
         [(C, """    for (const auto &column : columns) {
          if (first)
            first = false;
          else
            fmt::print(os, ",");
          switch (column.type) {""", """    for (const auto &column : columns) {
          if (column.type == cppsas7bdat::Column::Type::unknown)
            continue;
          if (first)
            first = false;
          else
            fmt::print(os, ",");
          switch (column.type) {""")],
         {'a.sas7bdat': f(L32, [num('A'), num('B', '', 9), num('C')], [L32.num(1.) + bytes(9) + L32.num(2.)])}, [['csv=a.sas7bdat', 'all', 'text']])

    # ---- S02
    P = 'include/cppsas7bdat/sink/print.hpp'
    seed('S02-counts-its-rows', 'S02', 'printing after a skip', 'the print sink numbers the rows it prints instead of the rows of the file',
         [(P, "    fmt::print(os, \"{}\", _irow);", "    fmt::print(os, \"{}\", rows_printed++);"),
          (P, "  COLUMNS columns;\n", "  COLUMNS columns;\n  size_t rows_printed{0};\n"),
          (P, "  void push_row(const size_t _irow, Column::PBUF _p) {", "  void push_row([[maybe_unused]] const size_t _irow, Column::PBUF _p) {")],
         {'a.sas7bdat': f(L32, [num('A')], [L32.num(float(i)) for i in range(9)])}, [['print=a.sas7bdat', 'row', 'skip=4', 'row', 'all', 'text']])

    # ---- R01, R02, R03: another bug each
    seed('R01-mix-count-of-page', 'R01', 'a mix page whose block count is larger than the rows it holds',
         'rows on a mix page are counted with the block count of the page',
         [('src/data.hpp', "      : row_count(std::min(metadata->row_count, metadata->mix_page_row_count)),", "      : row_count(std::min(metadata->row_count, metadata->mix_page_row_count + (metadata->mix_page_row_count % 256 == 0))),")],
         {'a.sas7bdat': f(L32, [Col('A', 1, 'chr')], [b'%c' % (33 + i % 90) for i in range(300)], plan=[('lastmix', 256), ('data', 44)])},
         [['open=a.sas7bdat', 'all', 'idx']])
    seed('D01-short-copy-at-row-length', 'D01', 'a compressed row whose payload is exactly as long as the row, with a stop byte',
         'a payload of the length of the row minus one is not decompressed',
         [('src/data.hpp', "    if (_length < metadata->row_length) {", "    if (_length + 1 < metadata->row_length) {")],
         {'a.sas7bdat': f(L32, [Col('A', 10, 'chr')], [b'?' * 10, b'!' * 10], compression='RLE', plan=[('meta', 2)],
                          encode=lambda r: rowsub(bytes([0x87]) + b'abcdefgh' if r[:1] == b'?' else bytes([0x83]) + b'wxyz' + bytes([0xE4])))},
         [['open=a.sas7bdat', 'all']])


if __name__ == '__main__':
    main()
