# python3 run.py FILE KIND CHUNK INC EXC OPS...: what a python sink sees
import sys
import pycppsas7bdat
f, kind, size, inc, exc, *ops = sys.argv[1:]


def show(v):
    return repr(v)


class Base:
    def set_properties(self, p):
        print('set', p.dataset_name, p.encoding, p.row_count, p.column_count, p.date_created, p.date_modified, p.creator, p.creator_proc, p.compression)
        for c in p.columns:
            print('col', repr(c.name), repr(c.label), repr(c.format), c.type)


class Row(Base):
    def push_row(self, i, row):
        print('row', i, [show(x) for x in row])


class Chunk(Base):
    chunk_size = int(size)

    def push_rows(self, a, b, rows):
        print('chunk', a, b, sorted((k, [show(x) for x in v]) for k, v in rows.items()))


class Data(Base):
    def set_data(self, rows):
        print('data', sorted((k, [show(x) for x in v]) for k, v in rows.items()))


names = lambda x: None if x == '-' else [n for n in x.split(',') if n]
try:
    r = pycppsas7bdat.Reader(f, dict(row=Row, chunk=Chunk, data=Data)[kind](), include=names(inc), exclude=names(exc))
    for o in ops:
        op, _, n = o.partition('=')
        v = {'row': r.read_row, 'all': r.read_all, 'eod': r.end_of_data}[op]() if op in ('row', 'all', 'eod') else \
            {'rows': r.read_rows, 'skip': r.skip}[op](int(n))
        print('->', o, v, r.current_row_index)
except Exception as e:
    print('exception')
