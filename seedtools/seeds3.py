import random, struct
from mkseed import seed
from sasgen import *
from seeds2 import f, num, L32, L64, B32, B64, H
run = {n: open('%s/%s' % (H, n)).read() for n in ('run.py', 'run.R')}
py = lambda *a: ['python3', 'run.py', *map(str, a)]
r = lambda *a: ['Rscript', '--vanilla', 'run.R', *map(str, a)]


def pyseed(*a):
    seed(*a, extra={'run.py': run['run.py']}, built=True)


def rseed(*a):
    seed(*a, extra={'run.R': run['run.R']}, built=True)


ab = [num('A'), Col('B', 5, 'chr')]
ten = [L32.num(float(i)) + b'r%d' % i + b'   ' for i in range(10)]
A = 'apps/cppsas7bdat-ci.cpp'
# ---- C01
seed('C01-zero-lines', 'C01', 'print with --nlines=0', 'a limit of no lines is taken for no limit',
     [(A, """  while(_n != 0 && reader.read_row()) {
    if(_n > 0) --_n;
  }
""", """  while(reader.read_row()) {
    if(_n > 0 && --_n == 0) break;
  }
""")], {'a.sas7bdat': f(L32, ab, ten)},
     [['{cli}', 'print', '--nlines=%d' % n, 'a.sas7bdat'] for n in (0, 1, 3, 20)], built=True)
seed('C01-limit-shared', 'C01', 'print of several files with a limit', 'the limit of lines is used up by the first file',
     [(A, "void process_print(const std::string& _filename, long _n)", "void process_print(const std::string& _filename, long& _n)"),
      (A, "    const auto n = args[\"--nlines\"] ? args[\"--nlines\"].asLong() : -1;", "    auto n = args[\"--nlines\"] ? args[\"--nlines\"].asLong() : -1;")],
     {'a.sas7bdat': f(L32, ab, ten), 'b.sas7bdat': f(L64, [num('X')], [L64.num(3.)] * 4)},
     [['{cli}', 'print', '--nlines=2', 'a.sas7bdat', 'b.sas7bdat'], ['{cli}', 'csv', 'a.sas7bdat', 'b.sas7bdat']], built=True)

# ---- P01
S = 'python/pycppsas7bdat/cpp/sink.hpp'
pyseed('P01-last-row-computed', 'P01', 'a skip in the middle of a chunk', 'the last row announced for a chunk is wrong after a skip',
       [(S, "    iendrow = _irow;\n    ++idata;", "    iendrow = istartrow + idata;\n    ++idata;")],
       {'a.sas7bdat': f(L32, ab, ten)}, [py('a.sas7bdat', 'chunk', 4, '-', '-', 'rows=2', 'skip=3', 'row', 'row', 'all'), py('a.sas7bdat', 'chunk', 3, '-', '-', 'all')])
tcols = [num('A'), num('T', 'TIME')]
trows = [L32.num(float(i)) + L32.num(60. * i) for i in range(7)]
pyseed('P01-times-kept', 'P01', 'a second chunk of a file with a column of times', 'a chunk repeats the times of the chunks before it',
       [(S, "    clear_values(col_dates);\n    clear_values(col_times);\n", "    clear_values(col_dates);\n")],
       {'a.sas7bdat': f(L32, tcols, trows)}, [py('a.sas7bdat', 'chunk', 3, '-', '-', 'all'), py('a.sas7bdat', 'data', 3, '-', '-', 'all')])
# ---- P02
pyseed('P02-text-ends-at-nul', 'P02', 'a text cell with a zero byte in the middle', 'a text is cut at its first zero byte',
       [(S, "    auto pyObj = PyBytes_FromStringAndSize(_x.data(), _x.size());", "    auto pyObj = PyBytes_FromString(std::string(_x).c_str());")],
       {'a.sas7bdat': f(L32, [Col('A', 6, 'chr')], [b'ab\0cd ', b'\0x    ', b'plain '])}, [py('a.sas7bdat', k, 2, '-', '-', 'all') for k in ('row', 'chunk')])
pyseed('P02-time-fraction', 'P02', 'a time with a fraction of a second', 'the microseconds of times are lost',
       [('python/pycppsas7bdat/cpp/import_datetime.cpp', "      long usecs = get_usecs(d);\n      return PyTime_FromTime(hours, minutes, seconds, usecs);",
         "      return PyTime_FromTime(hours, minutes, seconds, 0);")],
       {'a.sas7bdat': f(L32, tcols, [L32.num(1.) + L32.num(v) for v in (3600., 1.5, 86399.999)])}, [py('a.sas7bdat', 'row', 2, '-', '-', 'all')])
pyseed('P02-last-name-lost', 'P02', 'a filter with two or more names', 'the last of several names to leave out is ignored',
       [('python/pycppsas7bdat/cpp/reader.cpp', "      for (int i = 0; i < n; ++i) {", "      for (int i = 0; i < n - (n > 2); ++i) {")],
       {'a.sas7bdat': f(L32, [num(c) for c in 'ABCDE'], [L32.num(1.) * 5])}, [py('a.sas7bdat', 'row', 2, i, e, 'all') for i, e in (('-', 'A,B,C'), ('A,B,C', '-'), ('A', 'B'))])

# ---- Q01
rseed('Q01-row-index-counted', 'Q01', 'a skip in the middle of a chunk', 'the row indices of a chunk ignore the rows skipped within it',
      [('R/CPPSAS7BDAT/src/sink_by_columns.hpp', "    row_index[idata] = _irow;", "    row_index[idata] = idata ? row_index[idata - 1] + 1 : static_cast<int>(_irow);")],
      {'a.sas7bdat': f(L32, ab, ten)}, [r('a.sas7bdat', 'chunk', 4, '-', '-', 'rows=2', 'skip=3', 'row', 'row', 'all'), r('a.sas7bdat', 'data', 4, '-', '-', 'skip=3', 'all')])
rseed('Q01-short-chunk-lost', 'Q01', 'a last chunk of a single row', 'a chunk of one row at the end is not handed over',
      [('R/CPPSAS7BDAT/src/sink_chunk.hpp', "    if (istartrow > iendrow || idata == 0)", "    if (istartrow >= iendrow || idata == 0)")],
      {'a.sas7bdat': f(L32, ab, ten)}, [r('a.sas7bdat', 'chunk', k, '-', '-', 'all') for k in (3, 4)])
# ---- Q02
big = f(L64, ab, [L64.num(1.) + b'x    '], row_count=3000000000)
rseed('Q02-row-count-int', 'Q02', 'a file that declares more rows than an R integer holds', 'the number of rows is wrong when it is large',
      [('R/CPPSAS7BDAT/src/wrap_properties.hpp', "      .add(\"row_count\", _properties /*.metadata*/.row_count)", "      .add(\"row_count\", static_cast<double>(static_cast<int32_t>(_properties /*.metadata*/.row_count)))")],
      {'a.sas7bdat': big, 'b.sas7bdat': f(L32, ab, ten)}, [r('a.sas7bdat', 'row', 2, '-', '-', 'row'), r('b.sas7bdat', 'row', 2, '-', '-', 'row')])
rseed('Q02-time-of-missing', 'Q02', 'a missing date in a chunk', 'a missing date is handed over as a text',
      [('R/CPPSAS7BDAT/src/sink_by_columns.hpp', """    if (_x.is_not_a_date())
      _values[_idata] = NA_STRING; // R_NilValue;
    else
      _values[_idata] = cppsas7bdat::to_string(_x);""", """    if (_x.is_not_a_date())
      _values[_idata] = "";
    else
      _values[_idata] = cppsas7bdat::to_string(_x);""")],
      {'a.sas7bdat': f(L32, [num('A', 'DATE')], [L32.num(5.), struct.pack('<Q', 0xfffffe0000000000), L32.num(7.)])},
      [r('a.sas7bdat', k, 2, '-', '-', 'all') for k in ('row', 'chunk', 'data')])
