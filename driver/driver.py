"""Runs scripted sessions on the Python binding and logs what Python code sees.  usage: driver.py MODULEDIR PLAN OUT

PLAN: one JSON per line: {i, file, kind, size, bundled, quiet, bad, boom, inc, exc, ops}.  Each session runs in a process of
its own (fork); OUT receives one JSON event per line."""
import collections, datetime, gc, json, os, resource, signal, struct, sys, types


def pandas_stand_in():
    """what pycppsas7bdat.sink needs of pandas, which is not installed here: named columns of values"""
    pd = types.ModuleType('pandas')

    class DataFrame:
        def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
            if isinstance(data, DataFrame):
                data = data.data
            if data is not None and not hasattr(data, 'keys'):        # rows
                data = DataFrame.from_records(data, columns=columns).data
            data = {} if data is None else data
            names = list(data) if columns is None else list(columns)
            n = {len(v) for v in data.values()}
            if len(n) > 1:
                raise ValueError('All arrays must be of the same length')
            n = max(n, default=0)
            self.data = collections.OrderedDict((c, list(data[c]) if c in data else [float('nan')] * n) for c in names)

        @classmethod
        def from_records(cls, data, index=None, exclude=None, columns=None, coerce_float=False, nrows=None):
            rows = list(data)
            if columns is None:
                columns = list(rows[0]) if rows and hasattr(rows[0], 'keys') else range(len(rows[0])) if rows else []
            columns = list(columns)
            rows = [[r[c] for c in columns] if hasattr(r, 'keys') else r for r in rows]
            for r in rows:
                if len(r) != len(columns):
                    raise ValueError('%d columns passed, passed data had %d columns' % (len(columns), len(r)))
            return cls(collections.OrderedDict((c, [r[k] for r in rows]) for k, c in enumerate(columns)))

        @classmethod
        def from_dict(cls, data, orient='columns', dtype=None, columns=None):
            return cls(data, columns=columns)

        columns = property(lambda self: list(self.data))
        index = property(lambda self: range(len(self)))
        shape = property(lambda self: (len(self), len(self.data)))
        empty = property(lambda self: not self.data or len(self) == 0)
        __len__ = lambda self: max((len(v) for v in self.data.values()), default=0)
        __getitem__ = lambda self, c: DataFrame(self.data, columns=c) if isinstance(c, list) else self.data[c]
        __iter__ = lambda self: iter(self.data)
        __contains__ = lambda self, c: c in self.data
        copy = lambda self, deep=True: DataFrame(self.data)
        reset_index = lambda self, *a, **k: self
        keys = lambda self: list(self.data)
        items = lambda self: list(self.data.items())

    def concat(objs, axis=0, join='outer', ignore_index=False, keys=None, sort=False, copy=None, **_):
        frames = list(objs.values()) if hasattr(objs, 'values') else list(objs)
        if not frames:
            raise ValueError('No objects to concatenate')
        return DataFrame(collections.OrderedDict((c, [x for f in frames for x in f.data[c]]) for c in frames[0].data))

    pd.DataFrame, pd.concat = DataFrame, concat
    sys.modules['pandas'] = pd


class Boom(Exception):
    pass


def cell(x):
    if x is None:
        return []
    if isinstance(x, bytes):
        return list(x)
    if isinstance(x, bool):
        return [-9]
    if isinstance(x, int):
        return [x] if abs(x) < 2**31 else [-9]
    if isinstance(x, float):
        return list(struct.pack('>d', x))
    if isinstance(x, datetime.datetime):
        return [x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond] if x.tzinfo is None else [-9]
    if isinstance(x, datetime.date):
        return [x.year, x.month, x.day]
    if isinstance(x, datetime.time):
        return [0, x.hour, x.minute, x.second, x.microsecond] if x.tzinfo is None else [-9]
    if isinstance(x, datetime.timedelta):
        return [x.days, x.seconds // 3600, x.seconds // 60 % 60, x.seconds % 60, x.microseconds]
    if hasattr(x, 'item'):
        return cell(x.item())
    return [-9]


def text(x):
    return list(x.encode('utf-8', 'surrogatepass')) if isinstance(x, str) else [-9]


def stamp(x):
    return [] if x is None else cell(x)


def words(x):
    return [x >> 48 & 65535, x >> 32 & 65535, x >> 16 & 65535, x & 65535] if isinstance(x, int) and 0 <= x < 2**64 else [-9]


def enum(x, names={'bit32': '32bits', 'bit64': '64bits'}):
    return names.get(str(x), str(x))


def props(p):
    return dict(format=enum(p.format), endian=enum(p.endianness), platform=enum(p.platform), created=stamp(p.date_created),
                modified=stamp(p.date_modified), dataset=text(p.dataset_name), encoding=text(p.encoding), ftype=text(p.file_type),
                release=text(p.sas_release), server=text(p.sas_server_type), ostype=text(p.os_type), osname=text(p.os_name),
                hlen=words(p.header_length), plen=words(p.page_length), pcount=words(p.page_count), compression=enum(p.compression),
                creator=text(p.creator), proc=text(p.creator_proc), rowlen=words(p.row_length), rowcount=words(p.row_count),
                ncols=words(p.column_count), p1=words(p.col_count_p1), p2=words(p.col_count_p2), mixrows=words(p.mix_page_row_count),
                lcs=words(p.lcs), lcp=words(p.lcp))


def cols(p):
    return [dict(name=text(c.name), label=text(c.label), format=text(c.format), type=enum(c.type)) for c in p.columns]


def table(d):
    return [dict(n=text(k), v=[cell(x) for x in v]) for k, v in d.items()]


def session(s, emit, pkg, sinkmod, sasmod):
    boom, given, props0 = [s['boom'], 0], [], []

    def handed():
        boom[1] += 1
        if boom[1] == boom[0]:
            raise Boom('boom')

    def on_set(p):
        props0.append(p)
        emit(e='set', props=props(p), cols=cols(p))
        if boom[0] == 0:
            raise Boom('boom')

    def on_row(i, row):
        given.append(('row', row))
        emit(e='push', i=i, c=[cell(x) for x in row] if isinstance(row, list) else [[-9]])
        handed()

    def on_chunk(a, b, d):
        given.append(('table', d))
        emit(e='chunk', a=a, b=b, c=table(d))
        handed()

    def on_data(d):
        given.append(('table', d))
        emit(e='data', c=table(d))
        handed()

    base = {'row': sinkmod.SinkByRow, 'chunk': sinkmod.SinkByChunk, 'data': sinkmod.SinkWholeData}[s['kind']] if s['bundled'] else object

    class Own(base):
        def set_properties(self, p):
            if s['bundled']:
                super().set_properties(p)
            on_set(p)

        if s['kind'] == 'row':
            def push_row(self, i, row):
                if s['bundled']:
                    super().push_row(i, row)
                on_row(i, row)
        if s['kind'] == 'chunk':
            def push_rows(self, a, b, rows):
                if s['bundled']:
                    super().push_rows(a, b, rows)
                on_chunk(a, b, rows)
        if s['kind'] == 'data':
            def set_data(self, columns):
                if s['bundled']:
                    super().set_data(columns)
                on_data(columns)

    if s['quiet']:
        sink = base(s['size']) if s['kind'] == 'chunk' else base()
    elif s['bundled']:
        sink = Own(s['size']) if s['kind'] == 'chunk' else Own()
    else:
        sink = Own()
        if s['kind'] == 'chunk':
            sink.chunk_size = s['size']
    inc = None if s['inc'] is None else [bytes(x).decode() for x in s['inc']]
    exc = None if s['exc'] is None else [bytes(x).decode() for x in s['exc']]
    filename = s['file']
    if s['bad'] == 'sink':
        sink = s['bad_value'] and object() or 'nothing'
    elif s['bad'] == 'inc':
        inc = [(1,), ['A', 3], 'A', {'A': 1}, [None]][s['bad_value']]
    elif s['bad'] == 'exc':
        exc = [('A',), [3.5], 7, {'A'}, ['A', []]][s['bad_value']]
    elif s['bad'] == 'size':
        sink.chunk_size = ['x', -1, None, 2.5, [1]][s['bad_value']]
    elif s['bad'] == 'file':
        filename = [filename + '.nothing', os.path.dirname(filename), ''][s['bad_value'] % 3]
    try:
        if s['quiet'] and s['readsas']:
            sink = sasmod.read_sas(filename, include=inc, exclude=exc) if s['kind'] == 'data' else sasmod.read_sas(filename, sink, include=inc, exclude=exc)
            reader = None
        else:
            reader = pkg.Reader(filename, sink, include=inc, exclude=exc)
    except Exception as x:
        emit(e='exc', op='open', boom=int(isinstance(x, Boom)))
        return
    emit(e='opened')
    if reader is None:
        emit(e='call', op='all', n=0)
        emit(e='ret', op='all', v=0, idx=s['total'])
    for op in s['ops']:
        op, n = op if isinstance(op, list) else (op, 0)
        if op == 'del':
            reader = None
            gc.collect()
            emit(e='del')
            continue
        if op in ('props', 'own', 'keepprops'):
            try:
                if op == 'props':
                    p = reader.properties()
                    if n:             # what it shows outlives the reader
                        c = list(p.columns)
                    emit(e='props', props=props(p), cols=cols(p))
                elif op == 'own':     # what a bundled sink keeps of them
                    p = sink.properties
                    emit(e='props', none=1) if p is None else emit(e='props', props=props(p), cols=cols(p), names=[text(c) for c in sink.columns])
                else:
                    props0.append(reader.properties())
                    props0.append([c for c in reader.properties().columns])
                    emit(e='pin')
            except Exception as x:    # texts that are not UTF-8
                emit(e='exc', op=op, boom=0, what=type(x).__name__ + ': ' + str(x)[:80])
            continue
        emit(e='call', op=op, n=n)
        try:
            table1 = None
            if op == 'df':
                df = sink.df
                table1 = dict(e='df', none=1, c=[]) if df is None else dict(e='df', none=0, c=table(df.data))
                v = 0
            elif op == 'flush':
                if hasattr(sink, '_cpp'):
                    sink._cpp.flush_sink()
                v = 0
            else:
                v = dict(row=lambda: reader.read_row(), rows=lambda: reader.read_rows(n), skip=lambda: reader.skip(n),
                         all=lambda: reader.read_all(), eod=lambda: reader.end_of_data())[op]()
                v = -1 if v is None else int(v) if isinstance(v, bool) else -9
            emit(e='ret', op=op, v=v, idx=reader.current_row_index if reader is not None else 0)
            if table1 is not None:
                emit(**table1)
        except Exception as x:
            emit(e='exc', op=op, boom=int(isinstance(x, Boom)), what=type(x).__name__ + ': ' + str(x)[:80])
    if not s['quiet']:
        gc.collect()
        emit(e='kept', outs=[[cell(x) for x in d] if k == 'row' else table(d) for k, d in given])
        for p in props0:
            if not isinstance(p, list):
                emit(e='props', props=props(p), cols=cols(p))
            else:
                [text(c.name) for c in p]


def main():
    moddir, plan, out = sys.argv[1:4]
    sys.path.insert(0, moddir)
    pandas_stand_in()
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    try:
        import pycppsas7bdat
        import pycppsas7bdat.sink
        import pycppsas7bdat.read_sas
    except Exception:
        import traceback
        why = 'the package does not load: ' + traceback.format_exc()[-600:]
        for line in open(plan):
            os.write(fd, (json.dumps(dict(s=json.loads(line)['i'], e='crash', why=why)) + '\n').encode())
        return
    for line in open(plan):
        s = json.loads(line)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            signal.alarm(60)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            buf = []

            def emit(**e):
                e['s'] = s['i']
                os.write(fd, (json.dumps(e, separators=(',', ':')) + '\n').encode())
            try:
                session(s, emit, pycppsas7bdat, pycppsas7bdat.sink, pycppsas7bdat.read_sas)
                emit(e='done')
            except BaseException as x:
                import traceback
                emit(e='crash', why='driver: ' + traceback.format_exc()[-600:])
                os._exit(1)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0 and not os.WIFEXITED(st):
            os.write(fd, (json.dumps(dict(s=s['i'], e='crash', why='signal %d' % os.WTERMSIG(st))) + '\n').encode())


if __name__ == '__main__':
    main()
