import random, struct
from mkseed import seed
from sasgen import *
import sasgen

R = random.Random(7)
L32, L64 = L(32, True), L(64, True)
B32, B64 = L(32, False), L(64, False)


def col(n, length=8, typ='num', fmt='', label=''):
    return Col(n, length, typ, fmt, label)


def nums(l, n, k=1):
    return [b''.join(l.num(float(i * k + j)) for j in range(k)) for i in range(n)]


one = [col('A')]
abc = [col('A'), col('B', 5, 'chr'), col('C', 3)]


def rows_abc(l, n):
    return [l.num(i + .5) + (b'r%d' % i).ljust(5) + l.num(float(i), 3) for i in range(n)]


def f(l, cols, rows, **k):
    k.setdefault('page_length', 1024)
    k.setdefault('extra', False)
    return build(l, cols, rows, rng=random.Random(3), **k)


# ---- R01: a page without rows between data pages ends the data
pg = page(L32, 1024, DATA, [Sub(b'x' * 24, 1, 1, 'x')], (), block_count=3)
pg = bytearray(pg)
pg[24:24 + 48] = b''.join(rows_abc(L32, 9)[4:7])
seed('R01-block-count-minus-subheaders', 'R01', 'a data page whose header announces subheaders next to its rows',
     'the last rows of the page are lost',
     [('src/data.hpp', """      page.reset(new PAGE::data_type(current_page_header.block_count,
""", """      page.reset(new PAGE::data_type(static_cast<uint16_t>(current_page_header.block_count -
                                                           current_page_header.subheaders_count),
""")],
     {'a.sas7bdat': f(L32, abc, rows_abc(L32, 9), plan=[('data', 4), ('raw', bytes(pg)), ('data', 5)], row_count=12)},
     [['open=a.sas7bdat', 'all', 'idx']])

# ---- R02: skip jumps over whole pages without looking at the declared row count
seed('R02-skip-by-pages', 'R02', 'skip past the declared row count in a file whose last page holds more rows than declared',
     'skip counts rows beyond the declared row count and the reader goes on delivering them',
     [('src/data.hpp', """    while (_nrows) {
      if (!next())
        return false;
      _read_line();
      --_nrows;
    }
    return true;
""", """    while (_nrows) {
      if (!next())
        return false;
      // No need to look for the next page as long as the current one lasts
      do {
        _read_line();
      } while (--_nrows && !page->next());
    }
    return true;
""")],
     {'a.sas7bdat': f(L64, one, nums(L64, 12), row_count=7, plan=[('data', 5), ('data', 7)])},
     [['open=a.sas7bdat', 'skip=9', 'idx', 'row'], ['open=a.sas7bdat', 'skip=3', 'row', 'skip=6', 'idx', 'row']])

# ---- R03: skip reports the end only if rows were left
seed('R03-skip-at-end-silent', 'R03', 'a skip that runs out of rows when all rows were consumed before',
     'end_of_data is not delivered by a skip at the end of the data',
     [('src/reader-impl.hpp', """    if (!r)
      end_of_data();
    return r;
""", """    if (!r && _nrows > 1)
      end_of_data();
    return r;
""")],
     {'a.sas7bdat': f(L32, one, nums(L32, 3))},
     [['open=a.sas7bdat', 'all', 'skip=1', 'skip=2'], ['open=a.sas7bdat', 'skip=3', 'skip=1']])

# ---- R04: pages behind the last row are read
seed('R04-reads-trailing-pages', 'R04', 'reading on at the end of the rows in a file with pages behind the last row',
     'the source is read beyond the page of the last row',
     [('src/data.hpp', """    if (current_row == metadata->row_count)
      return false;
    if (!page)
      return false;
""", """    if (!page)
      return false;
"""), ('src/data.hpp', """        return false;
    }
    return true;
  }

  auto _read_line() {""", """        return false;
    }
    return current_row != metadata->row_count;
  }

  auto _read_line() {""")],
     {'a.sas7bdat': f(B32, one, nums(B32, 6), plan=[('data', 6), ('amd',), ('amd',)])},
     [['open=a.sas7bdat', 'pos', 'rows=6', 'pos', 'row', 'pos']])

# ---- R05: a failing source looks like the end of the data
seed('R05-failure-is-end', 'R05', 'a source that fails in the middle of the data without being at its end',
     'a failure of the source is taken for the end of the data',
     [('src/page.hpp', """      if (is->eof())
        return false;
      EXCEPTION::cannot_read_page();
""", """      if (is->eof() || current_page_header.type == PAGE_INVALID_TYPE)
        return false;
      EXCEPTION::cannot_read_page();
""")],
     {'a.sas7bdat': f(L32, abc, rows_abc(L32, 40), plan=[('data', 20), ('data', 20)])},
     [['fail=a.sas7bdat:3000', 'all', 'idx']])

# ---- R06: text blocks are not checked against the page
bad = bytearray(f(L32, abc, rows_abc(L32, 3), page_length=2048))
i = bad.find(SIG[32]['text'][0])
assert i > 0
bad[i + 4:i + 6] = struct.pack('<H', 65000)
seed('R06-text-length-unchecked', 'R06', 'a column text block whose length runs out of its page',
     'memory outside the page is read instead of refusing the file',
     [('src/metadata.hpp', """    const auto text = buf.template get_string_untrim<ASSERT::YES>(
""", """    const auto text = buf.template get_string_untrim<ASSERT::NO>(
""")],
     {'a.sas7bdat': bytes(bad)}, [['open=a.sas7bdat', 'all']])

# ---- R07: move assignment swaps
seed('R07-move-swaps', 'R07', 'move assignment onto a reader that is in use, then use of the one moved from',
     'the reader moved from still delivers rows and notifies a sink',
     [('src/reader.cpp', "Reader &Reader::operator=(Reader &&) noexcept = default;", """Reader &Reader::operator=(Reader &&_other) noexcept {
  std::swap(m_pimpl, _other.m_pimpl);
  return *this;
}""")],
     {'a.sas7bdat': f(L32, one, nums(L32, 3)), 'b.sas7bdat': f(L64, abc, rows_abc(L64, 3))},
     [['open=a.sas7bdat', 'row', 'use=2', 'open=b.sas7bdat', 'row', 'move=1', 'row', 'eod', 'idx', 'use=1', 'row', 'all']])


# ---- D01: long copy loses its high bits
def comp(l, cols, rows, kind, enc, **k):
    return f(l, cols, rows, compression=kind, encode=enc, **k)


long_ = [col('A', 6000, 'chr')]
row = bytes(R.randrange(33, 126) for _ in range(5990))
lit = lambda b: bytes([(len(b) - 64) >> 8, (len(b) - 64) & 255]) + b
pay = lit(row[:4090]) + lit(row[4090:5990]) + bytes([0xE0 + 8])
seed('D01-copy64-narrow', 'D01', 'an RLE literal run of 1088 bytes or more',
     'long literal runs lose the high bits of their length',
     [('src/decompressors.hpp', """      case SAS_RLE_COMMAND_COPY64: {
        const size_t n = (end_of_first_byte << EIGHT) + src.pop() + 64;""", """      case SAS_RLE_COMMAND_COPY64: {
        const size_t n = ((end_of_first_byte & 0x07) << EIGHT) + src.pop() + 64;""")],
     {'a.sas7bdat': comp(L32, long_, [row.ljust(6000)], 'RLE', lambda r: rowsub(pay), page_length=8192, plan=[('meta', 1)])},
     [['open=a.sas7bdat', 'all']])

# ---- D02: long pattern count wraps
c260 = [col('A', 300, 'chr')]
s3 = b'xyz'
items = bytes([0x10, 0x00]) + s3 + bytes([0x20 + 0, 0, 250])     # 3 literals, then long pattern: offset 3, count 266
pad = bytes([0x00 + 13, 0x20])
full = (b'xyz' * 200)[:3 + 266]
ctrl = (0 << 15 | 0 << 14 | 0 << 13 | 1 << 12 | 1 << 11)
pay2 = struct.pack('>H', ctrl) + s3 + bytes([0x20, 0, 250]) + bytes([0x00 + 13, 0x41]) + b'   '
seed('D02-long-pattern-wraps', 'D02', 'an RDC long back-reference of more than 255 bytes',
     'the length of long back-references is taken modulo 256',
     [('src/decompressors.hpp', "          cnt = static_cast<size_t>(src.pop() + SIXTEEN);", "          cnt = static_cast<uint8_t>(src.pop() + SIXTEEN);")],
     {'a.sas7bdat': comp(L32, c260, [b'?' * 300], 'RDC', lambda r: rowsub(pay2), page_length=2048, plan=[('meta', 1)])},
     [['open=a.sas7bdat', 'all']])

# ---- H01: an unknown platform
la = L(32, True, a1=True)
seed('H01-platform-default', 'H01', 'a platform byte that is neither 1 nor 2',
     'an unknown platform is reported as windows',
     [('src/header.hpp', """                                        : buf[39] == '2' ? Platform::windows
                                                         : Platform::unknown);""", """                                        : buf[39] != 0 ? Platform::windows
                                                       : Platform::unknown);""")],
     {'a.sas7bdat': f(la, one, nums(la, 2), hdr=dict(platform=b'3'))},
     [['open=a.sas7bdat', 'show', 'all']])
