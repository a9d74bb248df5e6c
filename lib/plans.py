"""Per property: the model-checking configurations and the conformance batches that decide it.

Every batch is a set of sessions (files + call scripts) proposed at random from VERIF_SEED or taken from behaviours exported by
TLC; the verdict on each session is the specification's (spec/Trace.tla)."""
import struct
from gens import *
from conform import Batch, MachineryError
from cli import CliBatch
from bind import BindBatch, RBatch

PROPS = {}
BATCHES = dict(Batch=Batch, CliBatch=CliBatch, BindBatch=BindBatch, RBatch=RBatch)


class Prop:
    def __init__(self, pid, gen, mc=(), mode='plain', export=None, canary=('dup', 'drop'), module=None):
        self.id, self.gen, self.mc, self.mode, self.export, self.canary = pid, gen, list(mc), mode, export, canary


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = Prop(pid, f, **kw)
        return f
    return deco


READ_OPS = ('row', 'rows', 'skip', 'nosink', 'all', 'eod', 'idx')
STRUCT = ['idx', 'cells']


def some_rc(rng):
    """declared row count: mostly the true one"""
    return rng.choice([None, None, None, lambda n: n + 3, lambda n: max(0, n - 1), lambda n: n // 2])


def from_exports(b, rng, exports, n, cells='raw', scale=(1, 1, 1, 3), hist=True, **kw):
    """sessions replaying behaviours TLC generated"""
    k = 0
    for test in rng.sample(exports, min(n, len(exports))):
        sc = rng.choice(scale)
        data, fail = concretize(rng, test, scale=sc)
        s = b.session('tlc')
        opts = dict(kw)
        if fail is not None:
            opts.update(fail=fail, throw=rng.random() < .3)
        s.open(1, data, cells=cells, det=False, eager=rng.random() < .2, **opts)
        s.ops(1, abstract_hist(rng, test, sc) if hist else ['all'])
        k += 1
    return k


def big_pages(b, rng, n, cells='raw'):
    """more rows per page than a byte can count, few bytes per row; more rows than 16 bits can count"""
    for i in range(n):
        l = layout(rng)
        c = Col('C', rng.choice([1, 2, 4]), 'num')
        c.kind = 'x'
        comp = None
        rl = c.length
        per = rng.choice([255, 256, 257, 300, 511, 513])
        nr = per * 2 + rng.randint(1, 40)
        rs = [(j + 1).to_bytes(4, 'big')[-rl:] for j in range(nr)]
        plan_ = [('data', per), ('data', per), ('data', nr - 2 * per)]
        if i % 3 == 1:
            plan_ = [('lastmix', 100), ('data', per), ('data', per), ('data', nr - 2 * per - 100)] if nr > 2 * per + 100 else plan_
        data = build(l, [c], rs, page_length=max(2048, l.pbo + 24 + per * rl), plan=plan_, rng=rng, extra=False)
        s = b.session('big')
        s.open(1, data, cells=cells, det=False)
        s.ops(1, rng.choice([['all'], [('rows', per - 1), 'row', 'row', ('skip', per - 2), 'row', 'row', 'all'],
                             [('skip', per), 'row', ('skip', per), 'row', 'all'], [('skip', 2 * per + 1), 'all'], ['nosink', 'all']]))


def huge(b, rng, n=1):
    """row numbers beyond 16 bits"""
    for i in range(n):
        l = layout(rng)
        c = Col('C', 1, 'num')
        c.kind = 'x'
        per = rng.choice([8000, 16000, 33000])
        nr = 66000
        rs = [bytes([j * 7 % 251]) for j in range(nr)]
        data = build(l, [c], rs, page_length=l.pbo + 24 + per + rng.choice([0, 8]), plan=[('data', per)] * (nr // per) + [('data', nr % per)],
                     rng=rng, extra=False)
        s = b.session('huge')
        s.open(1, data, cells='raw', det=False)
        s.ops(1, [('skip', 65530), 'idx', ('rows', 10), 'idx', ('skip', 300), 'idx', 'all'] if i % 2 == 0 else [('skip', 65536), 'row', 'idx', 'nosink', ('skip', 400), 'row', 'row', 'idx', 'all'])


def wide_file(rng, i=0, comp=None, dense=False):
    """offsets and lengths that do not fit into 16 bits (or 15, or 8)"""
    l = layout(rng)
    lens = [rng.choice([130, 255, 256, 257, 300]), rng.choice([32766, 32767, 32768, 33000]), rng.choice([65535, 65536, 65540] if dense else [40000, 65535, 65536, 65540])]
    rng.shuffle(lens)
    cs = []
    for j, n in enumerate(lens):
        cs.append(mk('N%d' % j, 8, 'num', rng.choice(['', 'DATE', 'DATETIME']), rng.choice(['num8', 'num8'])))
        cs.append(mk('S%d' % j, n, 'chr', '', 'chr'))
    cs += [mk('I', 2, 'num', '', 'int2'), mk('B', 1, 'num', '', 'int1'), mk('X', 5, 'num', '', 'num')]
    rs = []
    for r in range(2):
        row = b''
        for c in cs:
            if c.typ == 'chr':
                k = rng.choice([0, 1, 127, 128, 255, 256, c.length - 1, c.length, c.length // 2])
                t = bytes(rng.choice(b'abc xyz') for _ in range(min(k, 40))) + b'=' * max(0, min(k, c.length) - 41)
                if dense and c.length > 60000:             # a compressed row longer than 16 bits can say
                    t = bytes(rng.choice(b'abcdefgh') for _ in range(c.length - 5))
                row += (t[:c.length - 1] + (b'z' if k >= 42 else b'')).ljust(c.length)[:c.length]
            else:
                row += l.num(float(rng.randint(0, 20000))) if c.length == 8 else cell(rng, l, c)
        rs.append(row)
    rl = len(rs[0])
    plan_ = [('meta', 1), ('meta', 1)] if comp else rng.choice([[('data', 2)], [('lastmix', 1), ('data', 1)], [('data', 1), ('data', 1)]])
    return build(l, cs, rs, page_length=2 * rl + 3000 + rng.choice([0, 7]), header_length=rng.choice([1024, 40000, 65535, 65536, 70001]), plan=plan_, compression=comp, rng=rng,
                 extra=False, noise=False)


def long_cols(rng, kinds=('num8', 'int1')):
    return [mk('L%d' % j, {'num8': 8, 'int1': 1, 'int2': 2, 'chr': 3}[x], 'chr' if x == 'chr' else 'num', '', x) for j, x in enumerate(kinds)]


def long_file(rng, n, cs=None, comp=None):
    """many short rows"""
    l = layout(rng)
    cs = cs or long_cols(rng)
    rs = [b''.join(l.num(float(j)) if c.length == 8 else bytes([j % 256]) if c.length == 1 else l.i16(j - 700) if c.length == 2 else b'%03d' % (j % 1000) for c in cs) for j in range(n)]
    rl = sum(c.length for c in cs)
    per = rng.choice([37, 100, 256, 300])
    return build(l, cs, rs, page_length=max(2048, per * (rl + 40) + 100), plan=[('meta' if comp else 'data', min(per, n - a)) for a in range(0, n, per)], compression=comp, rng=rng, extra=False, noise=False)


def far_file(rng, i):
    """more rows than 16 bits count"""
    l = layout(rng, i)
    n = 65536 + rng.randint(10, 60)
    per = rng.choice([9000, 33000])
    cs = [mk('A', 1, 'chr', '', 'chr')]
    return build(l, cs, [bytes([65 + j % 26]) for j in range(n)], page_length=per + 100, plan=[('data', min(per, n - a)) for a in range(0, n, per)], rng=rng, extra=False, noise=False)


def far_ops(rng):
    a = rng.randint(65520, 65540)
    return rng.choice([[('skip', a), ('rows', 40)], [('rows', 2), ('skip', a - 2), 'all'], [('skip', 65535), 'row', 'row', 'row', 'all']])


def many_file(rng, ncols, nrows, kinds=('num8', 'num', 'int1', 'int2', 'chr', 'date', 'time', 'datetime', 'unk'), safe=True):
    """many columns"""
    l = layout(rng)
    cs = cols(rng, ncols, list(kinds), plain=True, maxchr=8)
    for j, c in enumerate(cs):
        c.name = b'V%d' % j
    rs = rows(rng, l, cs, nrows, safe)
    rl = sum(c.length for c in cs)
    return build(l, cs, rs, page_length=max(4096, rl * nrows + 200), plan=[('data', nrows)], rng=rng, extra=False, maxblock=rng.choice([32000, 2000]),
                 names_per_sub=rng.choice([1000, 50]), attrs_per_sub=rng.choice([1000, 50]), noise=False)


# ------------------------------------------------------------------------------------------------- R: the reading session
MCR = ('MC_Reader', dict(quick='MC_Reader_q.cfg', thorough='MC_Reader.cfg'))
EXP = ('MC_Reader', 'MC_Reader_x.cfg')


@prop('R01', mc=[MCR], export=EXP, canary=('dup', 'drop', 'swap', 'bytes'))
def r01(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(STRUCT, 'pages')
    from_exports(b, rng, exports, 150 * k, hist=False)
    from_exports(b, rng, exports, 30 * k, scale=(130, 257), hist=False)
    for i in range(120 * k):
        data, info = dataset(rng, rc=some_rc(rng), l=layout(rng, i), plain=True)
        s = b.session('random')
        s.open(1, data, cells='raw', det=False, file=i % 5 == 0, eager=i % 7 == 0)
        s.ops(1, ['all'] if rng.random() < .6 else [('rows', 10**6), 'row'] if rng.random() < .5 else ['row'] * (len(info['rows']) + 2))
    big_pages(b, rng, 8 * k)
    huge(b, rng, 1 if tier == 'quick' else 6)
    for i in range(2 * k):
        s = b.session('wide')
        s.open(1, wide_file(rng, i, [None, 'RLE', 'RDC'][(i + 1) % 3], dense=i % 2 == 0), cells='raw', det=False)
        s.ops(1, ['all'] if i % 2 else ['row', ('skip', 1), 'row'])
    return [b]


@prop('R02', mc=[MCR], export=EXP, canary=('dup', 'drop', 'ret', 'idx'))
def r02(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(STRUCT, 'histories')
    from_exports(b, rng, exports, 200 * k, scale=(1, 1, 1, 2, 5))
    for i in range(120 * k):
        data, info = dataset(rng, rc=some_rc(rng), l=layout(rng, i), plain=True)
        s = b.session('random')
        s.open(1, data, cells='raw', det=False, file=i % 5 == 0, eager=i % 7 == 0)
        s.ops(1, history(rng, rng.randint(3, 14), len(info['rows'])))
    big_pages(b, rng, 8 * k)
    huge(b, rng, 1 if tier == 'quick' else 6)
    return [b]


@prop('R03', mc=[MCR], export=EXP, canary=('dup', 'drop', 'eod'))
def r03(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(['idx', 'cells', 'setprops'], 'protocol')
    from_exports(b, rng, exports, 150 * k)
    for i in range(120 * k):
        data, info = dataset(rng, rc=some_rc(rng), l=layout(rng, i))
        names = [c.name for c in info['cols']]
        s = b.session('random')
        kw = {}
        if i % 4 == 1:
            kw = rng.choice([dict(inc=names[:1]), dict(exc=names[:1]), dict(inc=[], exc=[])])
        s.open(1, data, cells='raw', file=i % 5 == 0, eager=i % 7 == 0, **kw)
        h = history(rng, rng.randint(2, 10), len(info['rows']), ('row', 'rows', 'skip', 'nosink', 'all', 'eod', 'eod', 'props'))
        s.ops(1, ['props'] + h + ['props'])
        if i % 6 == 2:            # a reader that was moved keeps talking to its sink
            s.op('mv', 1, 2)
            s.ops(2, ['row', 'props', 'all', 'eod'])
            s.ops(1, ['row', 'all', 'eod', ('skip', 2)])
    return [b]


@prop('R04', mc=[MCR], export=EXP, canary=('pos', 'drop'))
def r04(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(['pos'], 'consumption')
    from_exports(b, rng, exports, 180 * k, cells='none', scale=(1, 1, 1, 4))
    for i in range(120 * k):
        data, info = dataset(rng, rc=some_rc(rng), l=layout(rng, i), plain=True)
        if rng.random() < .3:
            data += rng.randbytes(rng.choice([1, 7, 100, 5000]))       # bytes after the last page
        s = b.session('random')
        s.open(1, data, cells='none', det=False, eager=i % 3 == 0)
        s.ops(1, history(rng, rng.randint(3, 14), len(info['rows'])))
    return [b]


@prop('R05', mc=[MCR], export=EXP, canary=('dup', 'drop'))
def r05(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(STRUCT, 'faults')
    fails = [t for t in exports if t['fail']]
    from_exports(b, rng, fails, 100 * k)
    for i in range(22 * k):
        data, info = dataset(rng, ncols=rng.randint(1, 3), nrows=rng.choice([2, 5, 9]), l=layout(rng, i), plain=True)
        x = dict(build.info)
        hl, pl, n = x['hl'], x['pl'], x['npages']
        edges = [hl + j * pl for j in range(n + 1)]
        cuts = {0, 1, 31, 32, 35, 39, 287, 288, 295, 296, hl - 1, hl, hl + 1, rng.randint(0, hl)}
        for e in edges:
            cuts |= {e - 1, e, e + 1}
        cuts |= {rng.randint(hl, len(data)) for _ in range(4)}
        cuts = [c for c in cuts if 0 <= c <= len(data)]
        for c in rng.sample(sorted(cuts), min(len(cuts), 9)):
            s = b.session('cut')
            s.open(1, data, cells='raw', det=False, trunc=c, file=rng.random() < .4, eager=rng.random() < .3)
            s.ops(1, rng.choice([['all', 'row'], ['row', 'all'], [('skip', 2), 'all'], [('rows', 4), 'all', 'nosink']]))
        for c in rng.sample(sorted(cuts), min(len(cuts), 7)):
            s = b.session('fail')
            s.open(1, data, cells='raw', det=False, fail=c, throw=rng.random() < .4, transient=rng.random() < .4, eager=rng.random() < .2)
            s.ops(1, rng.choice([['all', 'all'], ['row', 'all', 'row', 'row'], [('skip', 2), 'all'], [('rows', 4), 'all', 'nosink', 'row']]))
    return [b]


@prop('R07', canary=('dup', 'drop', 'ret'))
def r07(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(['hdr', 'meta', 'cols', 'types', 'cells', 'idx', 'pos', 'setprops'], 'readers')
    for i in range(70 * k):
        datas = [dataset(rng, l=layout(rng), nrows=rng.choice([1, 4, 9]), plain=True, ncols=rng.randint(1, 4)) for _ in range(rng.choice([1, 1, 2, 3]))]
        nr = rng.choice([1, 2, 3, 4])
        s = b.session('interleave')
        live = []
        ops = []
        for r in range(1, nr + 1):
            if rng.random() < .12:
                ops.append(('def', r))
                continue
            d, info = rng.choice(datas)
            names = [c.name for c in info['cols']]
            kw = rng.choice([{}, {}, {}, dict(inc=names[:1]), dict(exc=names[:2]), dict(user='all')])
            if kw and kw.get('user'):
                kw = {}
            s.open(r, d, cells=rng.choice(['val', 'raw', 'full']), eager=rng.random() < .2, file=rng.random() < .15, **kw)
        for o, r in ops:
            s.default(r)
        ids = list(range(1, nr + 1))
        extra = [nr + 1, nr + 2]
        known = list(ids)
        for _ in range(rng.randint(6, 26)):
            r = rng.choice(known)
            x = rng.random()
            if x < .22:
                t = rng.choice(known + extra)
                if t == r:
                    continue
                s.op(rng.choice(['mv', 'ma']), r, t)
                if t not in known:
                    known.append(t)
            else:
                o = rng.choice(['row', 'row', ('rows', rng.randint(0, 4)), ('skip', rng.randint(0, 3)), 'nosink', 'all', 'eod', 'idx', 'props'])
                s.ops(r, [o])
        for r in known:
            s.ops(r, ['props', 'idx', rng.choice(['row', 'all', ('skip', 1)])])
    some = lambda: [rng.choice(['row', 'row', ('rows', rng.randint(0, 4)), ('skip', rng.randint(0, 3)), 'nosink', 'eod', 'idx', 'props']) for _ in range(rng.randint(1, 4))]
    def shared(i):
        comp = rng.choice([None, 'RLE', 'RDC'])
        return [dataset(rng, l=layout(rng), nrows=rng.choice([4, 9, 14]), plain=True, ncols=rng.randint(1, 4), comp=rng.choice([comp, comp, None]))[0] for _ in range(rng.choice([1, 2, 3]))]
    for i in range(40 * k):        # readers used, opened, moved and destroyed inside another's push_row
        datas, s = shared(i), b.session('nested')
        nr = rng.choice([2, 3])
        cells = rng.choice(['val', 'raw', 'full'])
        late = rng.random() < .3
        for r in range(1, nr + 1):
            if r == 1 or not late:
                s.open(r, rng.choice(datas), cells=cells, eager=rng.random() < .2)
        used = set()
        for _ in range(rng.randint(1, 5)):
            if nr == 3 and rng.random() < .4:        # a call of 3 inside a call of 2 inside a call of 1
                if late and 3 not in used:
                    used.add(3)
                    s.open(3, rng.choice(datas), cells=cells)
                else:
                    s.ops(3, [rng.choice(['row', ('rows', 2), 'nosink'])])
                s.inside(2, rng.randint(1, 3), 1)
            at, q = rng.randint(1, 4), some()
            n = len(q)
            if late and 2 not in used:
                used.add(2)
                s.open(2, rng.choice(datas), cells=cells)
                at, n = 1, n + 1
            s.ops(2, q)
            if rng.random() < .2:
                s.op(rng.choice(['mv', 'ma']), 2, 5)
                s.ops(5, ['row', 'row'])
                s.op('mv', 5, 2)
                n += 4
            s.inside(1, at, n)
        s.ops(1, rng.choice([['all'], ['row'] * 6, [('rows', 3), ('skip', 1), 'row', 'all'], ['row', ('rows', 99)]]))
        if not late:
            s.ops(2, some() + ['all'])
        s.ops(1, ['props', 'idx'])
    for i in range(24 * k):        # readers in threads of their own
        datas, s = shared(i), b.session('threads')
        nt = rng.choice([2, 3, 4])
        ready = rng.random() < .5
        for r in range(1, nt + 1):
            kw = dict(cells=rng.choice(['val', 'raw', 'full']), eager=rng.random() < .2, file=rng.random() < .2)
            s.open(r, rng.choice(datas), **kw)
            if not ready:
                s.thread(r, 1)
        if ready:
            s.default(9)
        for r in range(1, nt + 1):
            q = rng.choice([['all'], some() + ['all'], some() + some() + ['props', 'all']])
            s.ops(r, q)
            if rng.random() < .3:
                s.op('mv', r, r + 20)
                s.ops(r + 20, ['row', 'all'])
                q = q + [0, 0, 0]
            s.thread(r, len(q))
        s.ops(1, ['props', 'idx'])
    for i in range(6 * k):         # every method of an empty reader
        s = b.session('empty')
        if i % 2:
            data, info = dataset(rng, plain=True)
            s.open(1, data, cells='val')
            s.ops(1, [rng.choice(['row', 'all', ('skip', 1)])])
            s.op(rng.choice(['mv', 'ma']), 1, 2)
        else:
            s.default(1)
        s.ops(1, rng.sample(['row', ('rows', 3), ('rows', 0), ('skip', 2), ('skip', 0), 'nosink', 'all', 'eod', 'idx', 'props'], 10))
        if i % 2:
            s.ops(2, ['props', 'all', 'idx'])
    return [b]


# ------------------------------------------------------------------------------------------------- D: compression
def comp_file(rng, l, streams, rl, comp, extra_rows=(), page_length=None):
    """a compressed file whose rows are the given (stream bytes or whole rows) in order"""
    c = Col('C', rl, 'chr')
    subs = [rowsub(x, 4) if len(x) < rl else rowsub(x, rng.choice([0, 4])) for x in streams]
    l_ = l.pbo + 8
    pages, cur, used = [], [], l_
    need = (808 if l.bits == 64 else 480) + 64
    pl = max(page_length or rng.choice([need, 2048, 4096]), max([len(x) for x in streams] or [0]) + l.ptr + l_ + 8, need)
    for s in subs:
        n = l.ptr + len(s.data)
        if cur and (used + n > pl or rng.random() < .1):
            pages.append(cur)
            cur, used = [], l_
        cur.append(s)
        used += n
    if cur:
        pages.append(cur)
    raw = [('raw', page(l, pl, META, p)) for p in pages]
    return build(l, [c], [b''] * len(subs), page_length=pl, plan=raw, compression=comp, rng=rng, row_count=len(subs), row_length=rl, extra=False)


def comp_session(b, rng, streams, rl, comp, tag, l=None, ops=None):
    s = b.session(tag)
    s.open(1, comp_file(rng, l or layout(rng), streams, rl, comp), cells='raw', det=False)
    s.ops(1, ops or ['all'])
    return s


def tlc_streams(b, rng, exports, n, comp, group=12):
    """streams written by the writer of MC_Rle / MC_Rdc: several per file, whose rows are as long as the longest (others are
    zero-filled) or exactly as long as one of them"""
    tests = rng.sample(exports, min(n, len(exports)))
    tests.sort(key=lambda t: t['n'])
    for i in range(0, len(tests), group):
        g = tests[i:i + group]
        for rl in {g[-1]['n'], g[-1]['n'] + rng.choice([1, 5, 60])}:
            st = [bytes(t['src']) for t in g if t['n'] <= rl]
            # a stream as long as its row would be taken for a stored row
            st = [x for x in st if len(x) < rl]
            rng.shuffle(st)
            if rng.random() < .5 and st:
                st.insert(rng.randint(0, len(st)), rng.randbytes(rl))
            if st:
                comp_session(b, rng, st, rl, comp, 'tlc')


def rowlike(rng, n):
    """a row with runs, repeats and noise"""
    out = bytearray()
    while len(out) < n:
        x = rng.random()
        if x < .35:
            out += bytes([rng.choice([0, 32, 64, rng.randint(0, 255)])]) * rng.choice([2, 3, 5, 17, 18, 19, 20, 40, 64, 100, 300])
        elif x < .6 and len(out) > 4:
            o = rng.randint(1, min(len(out), 300))
            k = rng.choice([3, 4, 8, 15, 16, 20, 64])
            for _ in range(k):
                out.append(out[-o])
        else:
            out += rng.randbytes(rng.choice([1, 2, 5, 16, 17, 33, 49, 64, 70]))
    return bytes(out[:n])


def comp_random(b, rng, n, comp, lens):
    enc = rle_cmds if comp == 'RLE' else rdc_cmds
    for i in range(n):
        rl = rng.choice(lens)
        st = []
        for _ in range(rng.randint(2, 8)):
            row = rowlike(rng, rl)
            x = rng.random()
            if x < .15:
                st.append(row)
                continue
            if x < .3:        # a short row: the rest is zero
                row = row[:rng.randint(0, rl)]
            c = enc(row, rng)
            st.append(c if len(c) < rl else row.ljust(rl, b'\0'))
        comp_session(b, rng, st, rl, comp, 'random', ops=rng.choice([['all'], ['all'], [('skip', 1), 'row', ('skip', 2), 'all'], ['nosink', 'row', 'all']]))


@prop('D01', mc=[('MC_Rle', dict(quick='MC_Rle_q.cfg', thorough='MC_Rle.cfg'))], export=('MC_Rle', 'MC_Rle_x.cfg'), canary=('bytes',))
def d01(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(['cells'], 'rle')
    tlc_streams(b, rng, exports, 700 * k, 'RLE')
    comp_random(b, rng, 60 * k, 'RLE', [8, 20, 40, 100, 300, 700])
    comp_random(b, rng, 3 * k, 'RLE', [2000, 5000])
    # row sub-headers of the metadata page, mixed with stored rows and fixed pages
    for i in range(20 * k):
        data, info = dataset(rng, comp='RLE', plain=True, nrows=rng.choice([3, 9]))
        s = b.session('layout')
        s.open(1, data, cells='raw', det=False)
        s.ops(1, ['all'])
    return [b]


@prop('D02', mc=[('MC_Rdc', dict(quick='MC_Rdc_q.cfg', thorough='MC_Rdc.cfg'))], export=('MC_Rdc', 'MC_Rdc_x.cfg'), canary=('bytes',))
def d02(rng, tier, exports):
    k = 1 if tier == 'quick' else 8
    b = Batch(['cells'], 'rdc')
    # the last item of a stream must not start within its last two bytes: known finding, decided separately below
    tlc_streams(b, rng, [t for t in exports if t['tail'] >= 3], 600 * k, 'RDC')
    comp_random(b, rng, 60 * k, 'RDC', [8, 20, 40, 100, 300, 700])
    comp_random(b, rng, 3 * k, 'RDC', [2000, 5000])
    for i in range(20 * k):
        data, info = dataset(rng, comp='RDC', plain=True, nrows=rng.choice([3, 9]))
        s = b.session('layout')
        s.open(1, data, cells='raw', det=False)
        s.ops(1, ['all'])
    t = Batch(['cells'], 'rdc-tail')
    tlc_streams(t, rng, [x for x in exports if x['tail'] < 3], 60, 'RDC')
    for i in range(6):
        rl = rng.choice([20, 40, 100])
        st = []
        for _ in range(4):
            row = rowlike(rng, rl)
            c = rdc_cmds(row, rng, tail=True)
            st.append(c if len(c) < rl else row)
        comp_session(t, rng, st, rl, 'RDC', 'tail')
    t.known = 'KnownRdcTail'
    return [b, t]


# ------------------------------------------------------------------------------------------------- H / M: properties
def tiny(rng, l, hdr, hl, **kw):
    c = Col('C', 8)
    c.kind = 'num8'
    return build(l, [c], [], page_length=(808 if l.bits == 64 else 480) + 400, header_length=hl, hdr=hdr, rng=rng, extra=False, plan=[('data', 0)], **kw)


def stamp(rng):
    r = rng.random()
    if r < .1:
        return 0.0
    d = days(rng)
    s = float(d) * 86400 + rng.randint(0, 86399)
    if r < .6:
        s += rng.choice([.5, .25, .001, .123456, .999999])
    return s if not near_tie(dbytes(s)) and MIND * 86400.0 <= s < (MAXD + 1) * 86400.0 else float(d) * 86400


def htext(rng, n):
    r = rng.random()
    if r < .2:
        return b''
    t = bytes(rng.choice(b'ABCdef_0189.-/') for _ in range(rng.randint(1, n)))
    if r < .35:
        t = (t[:n - 2] + b' x')[:n]                 # inner blanks
    elif r < .45:
        t = ('\u00e9' * n).encode()[:n // 2 * 2]
    elif r < .55:
        t = bytes(rng.randint(33, 255) for _ in range(n))
    elif r < .65:
        t = (b'  ' + t)[:n]
    return t[:n]


@prop('H01', canary=('props',))
def h01(rng, tier, exports):
    k = 2 if tier == 'quick' else 6
    b = Batch(['hdr'], 'header')
    for rep in range(k):
        for enc in range(256):
            l = layout(rng, enc + rep)
            pad = rng.choice([b'\0', b' '])
            fld = lambda n: (lambda t: t + pad * (n - len(t)))(htext(rng, n))
            hdr = dict(enc=enc, platform=rng.choice([b'1', b'2', b'1', b'2', bytes([rng.randint(0, 255)])]), name=fld(64), ftype=fld(8), release=fld(8),
                       server=fld(16), ostype=fld(16), osmaker=fld(16), osname=fld(16) if rng.random() < .6 else b'',
                       created=stamp(rng) if rng.random() < .9 else l.num(rng.choice(MISS)), modified=stamp(rng), fill=rng.choice([0, 0, 0xff, 0x41]))
            # any byte but the marks of the other width: the alignment flag itself
            hdr['a1byte'] = 0x33 if l.a1 else rng.choice([0x22, 0x22, 0, 0x32, 0x34, 255])
            hdr['a2byte'] = 0x33 if l.a2 else rng.choice([0x22, 0x22, 0, 0x32, 0x34, 255])
            hdr['bigbyte'] = rng.choice([0, 0, 0, 2, 3, 0x10, 0x31, 0x80, 255])
            lens = [288 + l.a1 + l.a2, 512, 1024, 1025, 700] if not l.a2 else [296, 512, 1024, 1025]
            data = tiny(rng, l, hdr, rng.choice(lens) if rng.random() < .93 else rng.choice([4095, 4096, 8192, 16384, 20001, 65536, 70000]))
            s = b.session('hdr %d' % enc)
            s.open(1, data, file=enc % 9 == 0)
            s.ops(1, ['props'])
    return [b]


def odd_refs(rng, b, n):
    """names, formats and labels that start or end outside their text, or lie in a text that does not exist"""
    def refs(ts, e):
        if rng.random() < .5:
            return e
        i, o, m = e
        if rng.random() < .3:
            i = rng.choice([i, len(ts) - 1, len(ts), len(ts) + 1, 65535])
        s = len(ts[i]) if i < len(ts) else 50
        o = rng.choice([o, o, s, s - 1, s + 1, s + 2, s + 8, s + 40, s + 200, 65535, 0, rng.randint(0, s)])
        m = rng.choice([m, m, 0, 1, 8, s, s - o, s - o + 1, s - o - 1, 300, 65535]) % 65536
        return i, o % 65536, m
    for i in range(n):
        l = layout(rng, i)
        cs = cols(rng, rng.randint(1, 6))
        for c in cs:
            c.label = rng.choice([b'', b'a label', b'L' * 40])
        rs = rows(rng, l, cs, 2)
        data = build(l, cs, rs, page_length=2048, rng=rng, maxblock=rng.choice([32000, 40, 60]), refs=refs, shuffle=rng.random() < .4, spread=rng.choice([None, 2]))
        s = b.session('refs')
        s.open(1, data, det=True, cells='none')
        s.ops(1, ['props', ('rows', 2)])


@prop('M01', canary=('colname',))
def m01(rng, tier, exports):
    k = 2 if tier == 'quick' else 8
    b = Batch(['cols'], 'columns')
    for i in range(140 * k):
        n = rng.choice([1, 2, 3, 5, 8, 13, 20]) if i % 20 else rng.choice([40, 80])
        l = layout(rng, i)
        need = (808 if l.bits == 64 else 480) + 64
        comp = rng.choice([None, None, 'RLE', 'RDC'])
        data, info = dataset(rng, ncols=n, nrows=rng.choice([0, 1, 2]), l=l, comp=comp,
                             page_length=rng.choice([need, need + rng.randint(0, 500), 2048, 4096]),
                             shuffle=rng.random() < .5, spread=rng.choice([None, None, 1, 2, 3]), amd=rng.choice([0, .3, .6]), junk=rng.choice([0, .4]),
                             maxblock=rng.choice([32000, 32000, 60, 80, 200]), names_per_sub=rng.choice([1000, 1, 2, 3, 7]),
                             attrs_per_sub=rng.choice([1000, 1, 2, 5]), share_text=rng.random() < .3, textgap=rng.choice([0, 0, 4, 9]))
        s = b.session('cols')
        s.open(1, data, det=True, cells='none', file=i % 9 == 0)
        s.ops(1, ['props'])
    for i in range(2 * k):                 # more columns than a byte counts, texts beyond 2^15
        l = layout(rng, i)
        n = rng.choice([255, 256, 257, 300, 400])
        cs = [mk('V%d' % j, rng.choice([1, 2, 8]), rng.choice(['num', 'chr']), rng.choice(['', 'BEST', '$'])) for j in range(n)]
        for c in cs:
            c.label = b'label of %s ' % c.name + b'x' * (rng.randint(60, 240) if i % 2 else rng.randint(0, 20))
        s = b.session('many')
        s.open(1, build(l, cs, [], page_length=rng.choice([8192, 70000]), plan=[], rng=rng, extra=False, maxblock=rng.choice([4000, 32767, 65000]) if i % 2 == 0 else 65000,
                        names_per_sub=rng.choice([1000, 100, 255, 256]), attrs_per_sub=rng.choice([1000, 100, 255, 256]), noise=False), det=True, cells='none')
        s.ops(1, ['props'])
    # texts padded with blanks, controls and NULs at their ends
    for i in range(40 * k):
        l = layout(rng, i)
        cs = []
        for j in range(rng.randint(1, 6)):
            t = lambda m: rng.choice([b'', b' ', b'a', b'ab ', b' ab', b'a b', b'\0', b'a\0', b'\x01a', b'\x1fz', b' a', b'\x7fa', b'\x80b', b'\xc3\xa9', b'a\0b', b'  x  ',
                                      bytes(rng.choice(b'abcXYZ') for _ in range(m)), rng.randbytes(rng.randint(1, m))])
            c = Col(t(12), 8, 'num', t(8), t(20))
            c.kind = 'num8'
            cs.append(c)
        data = build(l, cs, [], page_length=2048, plan=[], rng=rng, extra=rng.random() < .3, maxblock=rng.choice([32000, 40]), shuffle=True, spread=rng.choice([None, 2]))
        s = b.session('texts')
        s.open(1, data, det=True, cells='none')
    odd_refs(rng, b, 60 * k)
    # long names, formats and labels
    for i in range(8 * k):
        l = layout(rng, i)
        cs = cols(rng, rng.randint(1, 4))
        for c in cs:
            t = lambda: bytes(rng.choice(b'abc XYZ_09') for _ in range(rng.choice([31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 300, 511, 1025, 4000]))).strip() or b'x'
            for f in ('name', 'label') + (('fmt',) if rng.random() < .3 else ()):
                if rng.random() < .6:
                    setattr(c, f, t())
        s = b.session('long texts')
        s.open(1, build(l, cs, [], page_length=rng.choice([4096, 16384]), plan=[], rng=rng, extra=False, maxblock=rng.choice([200, 1000, 30000])), det=True, cells='none')
    n = rng.choice([4097, 5000]) if tier != 'quick' else rng.choice([1030, 2100])
    cs = [mk('N%d' % j, rng.choice([1, 2, 8]), 'num', '') for j in range(n)]
    s = b.session('very many')
    s.open(1, build(layout(rng), cs, [], page_length=60000, plan=[], rng=rng, extra=False, maxblock=30000, names_per_sub=rng.choice([1000, 4000]), attrs_per_sub=rng.choice([700, 2000]), noise=False), det=True, cells='none')
    return [b]


FORMATS = DATETIME + DATE + TIME


def near_format(rng):
    f = rng.choice(FORMATS)
    return rng.choice([f, f, f, f.lower(), f + '9', f[:-1], f + ' ', ' ' + f, f + 'X', f + '.', 'X' + f, f + '20.', f[0] + f[1:].lower(), rng.choice(PLAIN)])


@prop('M02', canary=('coltype',))
def m02(rng, tier, exports):
    k = 2 if tier == 'quick' else 6
    b = Batch(['types', 'cells', 'full'], 'types')
    allf = list(FORMATS)
    rng.shuffle(allf)
    for i in range(60 * k):
        l = layout(rng, i)
        cs = []
        for j in range(rng.randint(3, 8)):
            f = (allf.pop() if allf else rng.choice(FORMATS)) if rng.random() < .5 else near_format(rng)
            x = rng.random()
            if x < .15:
                c = Col('C%d' % j, rng.choice([1, 2, 3, 8, 9]), 'chr', f)
                c.kind = 'chr'
            elif x < .3:
                c = Col('C%d' % j, rng.choice([1, 2]), 'num', f)
                c.kind = 'int'
            elif x < .4:
                c = Col('C%d' % j, rng.choice([9, 10, 16, 0]), 'num', f)
                c.kind = 'unk'
            else:
                c = Col('C%d' % j, rng.choice([3, 4, 5, 6, 7, 8, 8, 8]), 'num', f)
                f = f.strip()
                c.kind = 'datetime' if f in DATETIME else 'date' if f in DATE else 'time' if f in TIME else 'num8'
            if c.typ == 'chr' and rng.random() < .3:        # whatever is not marked as a number is a character column
                c.code = rng.choice([0, 3, 4, 17, 127, 128, 129, 255, 0x31, 0x32, 0x81, 0x82])
            cs.append(c)
        rs = rows(rng, l, cs, 2)
        rl = sum(c.length for c in cs)
        data = build(l, cs, rs, page_length=2048, plan=[('data', 2)], rng=rng, extra=False, shuffle=rng.random() < .3)
        s = b.session('types')
        s.open(1, data, cells='full')
        s.ops(1, ['all', 'props'])
    return [b]


@prop('M03', canary=('props',))
def m03(rng, tier, exports):
    k = 2 if tier == 'quick' else 8
    b = Batch(['meta'], 'metadata')
    wide32 = [0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
    wide64 = wide32 + [2**32, 2**32 + 7, 2**40, 2**53, 2**63, 2**64 - 1]
    for i in range(160 * k):
        l = layout(rng, i)
        comp = rng.choice([None, 'RLE', 'RDC'])
        cs = cols(rng, rng.randint(1, 5), ['num8', 'chr', 'date'], plain=True)
        w = wide64 if l.bits == 64 else wide32
        need = (808 if l.bits == 64 else 480) + 64
        kw = dict(compression=comp, rng=rng, spread=rng.choice([None, None, 1, 2]), shuffle=rng.random() < .5, amd=rng.choice([0, .4]), junk=rng.choice([0, .3]),
                  extra=rng.random() < .3, creator_proc=rng.choice([b'DATASTEP', b'SORT', b'', b'SQL     ', b'\xc3\xa9', b'PROC WITH BLANK']),
                  creator=rng.choice([b'', b'', b'CREATOR', b'ab   ', b'SAS PROGRAM']) if comp is None else b'')
        x = rng.random()
        p1 = rng.choice([None, 0, 1, 3])
        rl = sum(c.length for c in cs)
        rc, mix = 0, 0
        if x < .6:
            rc, mix = rng.choice(w), rng.choice(w)
        rows_ = []
        if x > .8:
            rl = rng.choice([v for v in w if v >= rl and (comp is None or v < 100000)])
        if 'extra' in kw and kw['extra']:
            pl = max(need, 1200)
        else:
            pl = need + rng.choice([0, 100, 1000])
        # text that names a compression elsewhere than in the first block
        if rng.random() < .3:
            cs[-1].label = rng.choice([b'SASYZCRL', b'SASYZCR2', b'xSASYZCRLx'])
        if rng.random() < .3:
            kw['maxblock'] = rng.choice([40, 60])
        if rng.random() < .3:
            kw['lcs'] = rng.choice([0, 1, 8, 20])
        if rng.random() < .3:
            kw['lcp'] = rng.choice([0, 1, 3, 8, 20])
        offs, _ = offsets(cs)
        if kw['creator'] == b'' and comp is None:
            kw['creator_proc'] = kw['creator_proc']
        data = build(l, cs, rows_, page_length=pl, plan=[('data', 0)], row_count=rc, mixrows=mix, offs=offs, row_length=rl, p1=p1, **kw) if p1 is None or p1 <= len(cs) else None
        if data is None:
            continue
        s = b.session('meta')
        s.open(1, data, cells='none')
        s.ops(1, ['props'])
    # nothing after the first text block changes the compression: rows that hold its name
    for i in range(20 * k):
        data, info = dataset(rng, plain=True, l=layout(rng, i), rc=lambda n: n)
        s = b.session('file')
        s.open(1, data, cells='none')
        s.ops(1, ['props', ('skip', 3), 'props', 'all', 'props'])
    return [b]


# ------------------------------------------------------------------------------------------------- V: values
def value_file(rng, l, cs, n, comp=None):
    rs = rows(rng, l, cs, n)
    rl = sum(c.length for c in cs)
    pl = max((808 if l.bits == 64 else 480) + 400, rl * 3 + 200)
    per = max(1, (pl - l.pbo - 24) // (rl + 4 + (l.ptr + 8 if comp else 0)))
    plan_, left = [], n
    while left:
        k = min(per, left)
        plan_.append(('meta' if comp else 'data', k))
        left -= k
    return build(l, cs, rs, page_length=pl, plan=plan_, compression=comp, rng=rng, extra=False)


def mk(name_, length, typ='num', fmt='', kind='num8'):
    c = Col(name_, length, typ, fmt)
    c.kind = kind
    return c


@prop('V01', canary=('cellval',))
def v01(rng, tier, exports):
    k = 2 if tier == 'quick' else 10
    b = Batch(['types', 'cells', 'full'], 'numbers')
    for i in range(64 * k):
        l = layout(rng, i)
        cs = []
        for j in range(rng.randint(3, 9)):
            r = rng.random()
            if r < .15:
                cs.append(mk('S%d' % j, rng.randint(1, 9), 'chr', kind='chr'))
            elif r < .3:
                cs.append(mk('I%d' % j, 1, kind='int1'))
            elif r < .45:
                cs.append(mk('J%d' % j, 2, kind='int2'))
            else:
                cs.append(mk('N%d' % j, rng.choice([3, 4, 5, 6, 7, 8, 8]), fmt=rng.choice(PLAIN)))
        s = b.session('numbers')
        s.open(1, value_file(rng, l, cs, 6, rng.choice([None, None, 'RLE', 'RDC'])), cells='full' if i % 3 else 'val', det=True)
        s.ops(1, ['all'])
    for i in range(1 * k):
        s = b.session('many columns')
        s.open(1, many_file(rng, rng.choice([129, 200, 260, 300]), 2, safe=False), cells='val')
        s.ops(1, ['all'])
    # every byte of a 1-byte integer, structured 2-byte ones, every exponent of a double
    for i in range(2 * k):
        l = layout(rng, i * 5 + 1)
        n = 128
        cs = [mk('A', 1, kind='int1'), mk('B', 2, kind='int2'), mk('C', 8), mk('D', 3 + i % 5)]
        rs = []
        for j in range(n):
            e = rng.choice([0, 2047, rng.randint(0, 2047)])
            bits = (rng.getrandbits(1) << 63) | (e << 52) | rng.choice([0, 1, (1 << 52) - 1, rng.getrandbits(52)])
            d = bits.to_bytes(8, 'big')
            rs.append(bytes([(2 * j + i) % 256]) + l.i16(rng.choice([j * 257 - 32768, -j, j << 8, rng.randint(-32768, 32767)])) + l.num(d) + l.num(d[:cs[3].length], cs[3].length))
        data = build(l, cs, rs, page_length=2048, plan=[('data', 64), ('data', 64)], rng=rng, extra=False)
        s = b.session('grid')
        s.open(1, data, cells='full')
        s.ops(1, ['all'])
    return [b]


@prop('V02', mc=[('MC_Calendar', dict(quick='MC_Calendar_q.cfg', thorough='MC_Calendar.cfg'))], canary=('celltemp',))
def v02(rng, tier, exports):
    k = 2 if tier == 'quick' else 10
    b = Batch(['types', 'cells', 'full', 'hdr'], 'temporal')
    for i in range(60 * k):
        l = layout(rng, i)
        cs = []
        for j in range(rng.randint(2, 6)):
            kd = rng.choice(['date', 'time', 'datetime'])
            cs.append(mk('T%d' % j, 8 if rng.random() < .6 else rng.randint(3, 7), 'num', rng.choice(dict(date=DATE, time=TIME, datetime=DATETIME)[kd]), kd))
        s = b.session('temporal')
        s.open(1, value_file(rng, l, cs, 12, rng.choice([None, None, 'RLE'])), cells='full' if i % 3 else 'val', file=i % 11 == 0)
        s.ops(1, ['all'])
    # month ends, leap days and year boundaries of many years, each as date and datetime
    for i in range(2 * k):
        l = layout(rng, i * 3 + 2)
        cs = [mk('D', 8, 'num', 'DATE', 'date'), mk('DT', 8, 'num', 'DATETIME', 'datetime'), mk('T', 8, 'num', 'TIME', 'time')]
        import datetime
        rs = []
        for j in range(100):
            y = rng.choice([1400, 1500, 1582, 1600, 1700, 1800, 1899, 1900, 1904, 1959, 1960, 1961, 1970, 1999, 2000, 2001, 2038, 2100, 2400, 9999, rng.randint(1400, 9999)])
            m, dd = rng.choice([(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (rng.randint(1, 12), 1), (4, 30), (10, 31)])
            try:
                o = datetime.date(y, m, dd).toordinal()
            except ValueError:
                o = datetime.date(y, 3, 1).toordinal()
            d = o - datetime.date(1960, 1, 1).toordinal()
            sec = rng.choice([0, 1, 86399, 43200, 3599, 3600, rng.randint(0, 86399)])
            frac = rng.choice([0, 0, .5, .25, .001, .000001, .999999])
            v = float(d) * 86400 + sec + frac
            if near_tie(dbytes(v)) or v >= (MAXD + 1) * 86400.0:
                v = float(d) * 86400 + sec
            t = float(sec) + frac
            if near_tie(dbytes(t)):
                t = float(sec)
            rs.append(l.num(float(d)) + l.num(v) + l.num(t))
        data = build(l, cs, rs, page_length=2600, plan=[('data', 50), ('data', 50)], rng=rng, extra=False, hdr=dict(created=stamp(rng), modified=stamp(rng)))
        s = b.session('calendar')
        s.open(1, data, cells='val')
        s.ops(1, ['all'])
    for i in range(24 * k):      # the header's own instants
        l = layout(rng, i)
        s = b.session('stamps')
        s.open(1, tiny(rng, l, dict(created=stamp(rng), modified=stamp(rng) if i % 5 else l.num(rng.choice(MISS))), 1024))
    return [b]


@prop('V03', canary=('cellval',))
def v03(rng, tier, exports):
    k = 2 if tier == 'quick' else 10
    b = Batch(['types', 'cells', 'full'], 'characters')
    edge = [0, 9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 33, 34, 65, 126, 127, 128, 133, 160, 194, 195, 255]
    for i in range(64 * k):
        l = layout(rng, i)
        cs, n = [], rng.randint(1, 6)
        for j in range(n):
            cs.append(mk('S%d' % j, rng.choice([1, 1, 2, 3, 5, 8, 20, rng.randint(1, 40)]), 'chr', rng.choice(['', '$', 'DATE', '$CHAR8']), 'chr') if rng.random() < .8 else mk('N%d' % j, 8))
        rs = []
        for _ in range(8):
            row = b''
            for c in cs:
                if c.typ != 'chr':
                    row += rng.randbytes(8)
                    continue
                x = rng.random()
                if x < .4:
                    t = bytes(rng.choice(edge) for _ in range(c.length))
                elif x < .55:
                    t = (rng.choice(TEXTS) + bytes(rng.choice(b' \0\t\n') for _ in range(c.length)))[:c.length]
                elif x < .65:
                    t = bytes([rng.choice([0, 32, 9, 255, 160])]) * c.length
                else:
                    t = cell(rng, l, c)
                row += t.ljust(c.length)
            rs.append(row)
        rl = sum(c.length for c in cs)
        comp = rng.choice([None, None, 'RLE', 'RDC'])
        data = build(l, cs, rs, page_length=max(2048, 10 * (rl + 40) + 200), plan=[('meta' if comp else 'data', 8)], compression=comp, rng=rng, extra=False)
        s = b.session('characters')
        s.open(1, data, cells='full' if i % 4 == 0 else 'val')
        s.ops(1, ['all'])
    for i in range(1 * k):
        s = b.session('wide')
        s.open(1, wide_file(rng, i, [None, 'RLE', 'RDC'][i % 3]), cells='val', file=i % 3 == 0)
        s.ops(1, ['all'])
    # every byte value in last and inner position
    for i in range(1 * k):
        l = layout(rng, i + 3)
        cs = [mk('A', 1, 'chr', '', 'chr'), mk('B', 3, 'chr', '', 'chr'), mk('C', 3, 'chr', '', 'chr')]
        rs = [bytes([v]) + bytes([120, v, 32]) + bytes([v, 32, 120]) for v in range(256)]
        data = build(l, cs, rs, page_length=2048, plan=[('data', 128), ('data', 128)], rng=rng, extra=False)
        s = b.session('bytes')
        s.open(1, data, cells='val')
        s.ops(1, ['all'])
    return [b]


# ------------------------------------------------------------------------------------------------- F, L: filters and layouts
def near_name(rng, n):
    return rng.choice([n, n, n.lower(), n.upper(), n + b' ', n[:-1], n + b'x', b'', b'NOPE'])


@prop('F01', mc=[('MC_Filter', dict(quick='MC_Filter.cfg', thorough='MC_Filter.cfg'))], canary=('colname', 'drop', 'cellval'))
def f01(rng, tier, exports):
    k = 2 if tier == 'quick' else 8
    b = Batch(['cols', 'types', 'cells', 'asked', 'idx'], 'filters')
    for i in range(110 * k):
        l = layout(rng, i)
        cs = cols(rng, rng.randint(1, 6), rng.choice([None, ['num8', 'chr', 'unk', 'date']]), plain=rng.random() < .5)
        if rng.random() < .2 and len(cs) > 1:
            cs[-1].name = cs[0].name                       # duplicate names
        if rng.random() < .2:
            rng.choice(cs).name = b''                      # a column without a name
        rs = rows(rng, l, cs, rng.choice([0, 2, 4]))
        rl = sum(c.length for c in cs)
        comp = rng.choice([None, 'RLE'])
        data = build(l, cs, rs, page_length=max(2048, 6 * (rl + 60)), plan=[('meta' if comp else 'data', len(rs))] if rs else [], compression=comp, rng=rng, extra=False)
        names = [c.name for c in cs]
        pick = lambda: [near_name(rng, x) for x in names if rng.random() < .5] + ([rng.choice(names)] if rng.random() < .3 else [])
        kd = i % 6
        kw = [dict(inc=pick()), dict(exc=pick()), dict(inc=pick(), exc=pick()), dict(inc=[], exc=pick()), dict(user=pick()), dict(user='all')][kd]
        if rng.random() < .05:
            kw = rng.choice([dict(inc=[]), dict(exc=[]), dict(inc=[], exc=[])])
        s = b.session('filter')
        s.open(1, data, cells=rng.choice(['val', 'val', 'full']), **kw)
        s.ops(1, ['props', 'all'])
    # all subsets of three names
    l = layout(rng)
    cs = [mk('A', 8), mk('AB', 5, 'chr', '', 'chr'), mk('a', 2, kind='int2')]
    data = build(l, cs, rows(rng, l, cs, 2), page_length=2048, plan=[('data', 2)], rng=rng, extra=False)
    univ = [b'A', b'AB', b'a']
    subsets = [[univ[j] for j in range(3) if m >> j & 1] for m in range(8)]
    todo = [('inc', x, None) for x in subsets] + [('exc', None, x) for x in subsets] + [('both', x, y) for x in subsets for y in subsets]
    for kd, x, y in todo if tier != 'quick' else todo[:16] + rng.sample(todo[16:], 20):
        s = b.session('subset')
        s.open(1, data, cells='val', inc=x, exc=y)
        s.ops(1, ['all'])
    return [b]


@prop('L01', canary=('props', 'cellval', 'drop'))
def l01(rng, tier, exports):
    k = 2 if tier == 'quick' else 10
    b = Batch(['agree'], 'layouts')
    for i in range(34 * k):
        # one dataset: columns, abstract values (bytes most significant first), header texts
        big = L(32, False)
        cs = cols(rng, rng.randint(1, 5))
        n = rng.choice([0, 1, 3, 8, 15])
        rs = rows(rng, big, cs, n)
        rl = sum(c.length for c in cs)
        hdr = dict(created=stamp(rng), modified=stamp(rng), name=htext(rng, 32), enc=rng.randint(0, 255), release=htext(rng, 8), server=htext(rng, 16),
                   ostype=htext(rng, 16), osname=htext(rng, 16) or b'OS', platform=rng.choice([b'1', b'2']))
        proc = rng.choice([b'DATASTEP', b'SORT'])
        s = b.session('dataset')
        for r, j in enumerate(rng.sample(range(8), rng.choice([2, 3, 4]))):
            l = layout(rng, j)
            stored = []
            for row in rs:
                o, out = 0, b''
                for c in cs:
                    x = row[o:o + c.length]
                    out += x[::-1] if l.little and c.typ != 'chr' else x
                    o += c.length
                stored.append(out)
            comp = rng.choice([None, 'RLE', 'RDC'])
            pl = max((808 if l.bits == 64 else 480) + rng.choice([64, 200, 1000, 3000]), rl + 150)
            plan_, mixn = plan(rng, l, n, rl, pl, comp, tight=rng.random() < .3)
            data = build(l, cs, stored, page_length=pl, header_length=rng.choice([300, 512, 1024, 2048]), plan=plan_, compression=comp, mixrows=mixn, row_count=n, rng=rng,
                         hdr=dict(hdr), creator_proc=proc, extra=pl > 1300 and rng.random() < .5, shuffle=rng.random() < .5, spread=rng.choice([None, 1, 2, 4]),
                         amd=rng.choice([0, .3]), junk=rng.choice([0, .3]), maxblock=rng.choice([32000, 60, 200]), names_per_sub=rng.choice([1000, 1, 2]),
                         attrs_per_sub=rng.choice([1000, 1, 3]), share_text=rng.random() < .3, join=.7)
            s.open(r + 1, data, cells='val', eager=rng.random() < .2)
        for r in sorted(s.rd):
            s.ops(r, rng.choice([['all'], [('rows', n + 3)], [('rows', n // 2), 'all'], ['row'] * (n + 1)]))
    return [b]


def overrun(rng, rl, comp):
    """a row whose last command produces up to a few bytes more than there is room for"""
    kinds = [('lit', rng.choice([1, 2, 5, 16])), ('rep', rng.choice([3, 5, 18])), ('set', rng.choice([2, 9, 17])), ('long', rng.choice([20, 33, 70]))]
    kd, n = rng.choice([x for x in kinds if x[1] < rl - 4])
    room = max(0, n - rng.choice([0, 0, 1, 1, 2, n]))
    left = rl - room
    if comp == 'RLE':
        out = b''
        while left:
            m = left if left <= 17 else rng.randint(2, min(17, left - 2))
            out += bytes([rng.choice([0xd0, 0xe0, 0xf0]) | (m - 2)]) if m >= 2 else bytes([0x80, 65])
            left -= m
        if kd == 'lit':
            return out + bytes([0x80 | (n - 1)]) + rng.randbytes(n)
        if kd == 'rep':
            return out + bytes([0xc0 | (n - 3), 66])
        if kd == 'set':
            return out + bytes([rng.choice([0xd0, 0xe0, 0xf0]) | (n - 2)])
        return out + rng.choice([bytes([0x40 | (n - 18) >> 8, (n - 18) & 255, 67]), bytes([rng.choice([0x50, 0x60, 0x70]), n - 17])])
    items = []
    while left:
        m = left if left <= 18 else rng.randint(3, min(18, left - 3))
        items += [(True, bytes([m - 3, 65 + m]))] if m >= 3 else [(False, b'k')] * m
        left -= m
    n = max(n, 3)
    if kd == 'lit':
        items += [(False, b'x')] * n
    elif kd == 'rep' or rl - room < 20:
        items.append((True, bytes([min(n, 18) - 3, 66])))
    elif kd == 'set':
        items.append((True, bytes([min(n, 15) << 4, 0])))
    else:
        items.append(rng.choice([(True, bytes([0x10 | (n - 19) % 16, (n - 19) // 16, 67])), (True, bytes([0x20, 0, n - 16]))]))
    return rdc_pack(items)[:rl - 1]


@prop('R06', mode='asan', canary=('dup', 'drop'))
def r06(rng, tier, exports):
    k = 1 if tier == 'quick' else 12
    b = Batch(STRUCT, 'malformed')
    b.cfg = 'Trace_FreeTail.cfg'
    reads = lambda: rng.choice([[('rows', 60)], ['row', ('skip', 3), ('rows', 50)], ['nosink', ('rows', 40), 'row', 'eod'], [('rows', 60), 'props', 'row']])
    opts = lambda: rng.choice([{}, {}, {}, dict(eager=True), dict(file=True), dict(sink='csv'), dict(sink='print'), dict(sink='null'), dict(cells='full'), dict(cells='raw')])
    for i in range(36 * k):
        l = layout(rng, i)
        data, info = dataset(rng, ncols=rng.randint(1, 4), nrows=rng.choice([1, 4, 9]), l=l, page_length=(808 if l.bits == 64 else 480) + rng.choice([64, 200, 500]),
                             comp=rng.choice([None, 'RLE', 'RDC', 'RDC']), plain=rng.random() < .5)
        x = dict(build.info)
        for _ in range(12):
            m, kind = mutate(rng, data, l, x)
            s = b.session(kind)
            o = opts()
            s.open(1, m, det='file' not in o and rng.random() < .3, **dict(dict(cells='val'), **o))
            s.ops(1, reads())
    # a subheader at the very end of its page, whole or cut short by some bytes
    for i in range(70 * k):
        l = layout(rng, i)
        cs = cols(rng, 2, plain=True)
        rs = rows(rng, l, cs, 3)
        comp = rng.choice([None, None, 'RLE'])
        subs, rl = meta_subs(l, cs, 3, None, 0, comp, rng=rng, extra=True)
        j = rng.randrange(len(subs))
        if rng.random() < .3:
            j = len(subs) - 1 - rng.randint(0, 1)          # formats
        x = subs.pop(j)
        if x.kind == 'rowsize' and rng.random() < .7:
            subs.insert(0, x)
        pl = (808 if l.bits == 64 else 480) + 200
        need = dict(rowsize=[c_ + d for c_ in ((706,) if l.bits == 64 else (378,)) for d in (2, 4)], colsize=[2 * l.int], fmt=[3 * l.int + 34], text=[l.int + 2, (20 if l.bits == 64 else 16) + 8]).get(x.kind)
        m = rng.choice(need) + rng.choice([0, -1, -1, -2, 1]) if need and rng.random() < .7 else len(x.data) - rng.randint(0, 30) if rng.random() < .7 else rng.randint(1, len(x.data))
        m = min(max(m, 1), pl - 100)
        pg = bytearray(page(l, pl, META, [], rng=rng))
        put(pg, l.pbo + 4, l.u16(1))
        put(pg, pl - m, x.data[:m])
        put(pg, l.pbo + 8, l.uint(pl - m) + l.uint(rng.choice([m, m, m, len(x.data), max(1, m - rng.randint(0, 8))])) + bytes([x.comp, x.typ]) + bytes(l.int - 2))
        data = build(l, cs, rs, page_length=pl, subs=subs, row_length=rl, compression=comp, plan=[('raw', bytes(pg))] + [('meta' if comp else 'data', 1)] * 3, rng=rng, row_count=3)
        s = b.session('page end')
        s.open(1, data, cells=rng.choice(['val', 'raw']))
        s.ops(1, [('rows', 5)])
    odd_refs(rng, b, 40 * k)
    # more rows counted on a page than it has room for
    for i in range(16 * k):
        l = layout(rng, i)
        c = mk('A', rng.choice([1, 3, 5, 8, 13, 40]), 'chr', '', 'chr')
        n = rng.randint(2, 6)
        pl = (808 if l.bits == 64 else 480) + 64 + rng.randint(0, 16)
        room = (pl - l.pbo - 8) // c.length
        mixed = rng.random() < .5
        if not mixed:
            pg = page(l, pl, DATA, (), [rng.randbytes(c.length) for _ in range(room)], block_count=room + rng.choice([0, 0, 1, 1, 2, 1000]), rng=None)
        else:
            pg = page(l, pl, MIX, (), [rng.randbytes(c.length) for _ in range(room - 2)], rng=None)
        data = build(l, [c], [], page_length=pl, plan=[('raw', pg), ('data', 0)], rng=rng, row_count=10**6, mixrows=room + rng.choice([-1, 0, 1, 1000]), extra=False)
        s = b.session('page full')
        s.open(1, data, cells='raw', det=False)
        s.ops(1, [('rows', room - 3 if room > 3 else 1), 'row', 'row', 'row', 'row', ('rows', 4)])
    # columns that reach past the end of their row, by little and by much
    for i in range(30 * k):
        l = layout(rng, i)
        cs = cols(rng, rng.randint(1, 4), plain=True)
        offs, full = offsets(cs)
        rl = full
        j = rng.randrange(len(cs))
        n = cs[j].length
        x = rng.random()
        if x < .3:
            rl = rng.choice([full - 1, full - cs[-1].length, full - cs[-1].length + 1, full, full + 1, max(1, full // 2)])
        elif x < .8:
            offs[j] = rng.choice([full - n + rng.randint(0, n), full - n + 1, full - n, full - 1, full, full + 1, 2**31, 2**32 - 1, 2**32 - n, 2**32 - n + 1]
                                 + ([2**63, 2**64 - 1, 2**64 - n, 2**64 - n + 1, 2**32] if l.bits == 64 else []))
        else:
            cs[j].length = rng.choice([full + 1, full + 2, full - offs[j] + 1, 2**31 - 1, 2**32 - 1])
        rl = max(rl, 1)
        comp = rng.choice([None, None, 'RLE'])
        data = build(l, cs, [rng.randbytes(rl) for _ in range(3)], page_length=(808 if l.bits == 64 else 480) + 400 + 4 * rl, offs=offs, row_length=rl, compression=comp, rng=rng,
                     row_count=3, plan=[('meta' if comp else 'data', 3)])
        s = b.session('bounds')
        s.open(1, data, det=rng.random() < .5, cells=rng.choice(['val', 'raw']))
        s.ops(1, [('rows', 5)])
    # streams that overrun, lack operands, or refer before their row
    for i in range(24 * k):
        comp = rng.choice(['RLE', 'RDC'])
        rl = rng.choice([4, 9, 24, 60])
        st = []
        for _ in range(6):
            x = rng.random()
            row = rowlike(rng, rl)
            c = (rle_cmds if comp == 'RLE' else rdc_cmds)(row, rng)
            if x < .3:
                c = c[:rng.randrange(len(c) + 1)]
                if comp == 'RDC':                      # the known finding of D02 is not what is looked for here
                    c = rng.randbytes(2) + rng.randbytes(rng.randint(0, 3)) if len(c) < 3 else c
            elif x < .5:
                c = bytes([c[0] ^ (1 << rng.randint(0, 7))]) + c[1:]
            elif x < .7:
                c = rng.randbytes(rng.randint(1, max(1, rl - 1)))
            elif x < .8:
                c = bytes([rng.choice([0x00, 0x40, 0x50, 0x60, 0x70, 0xc0, 0x10, 0x20, 0x30])]) * rng.randint(1, max(1, rl - 1))
            st.append(c[:max(1, rl - 1)])
        s = b.session('stream')
        s.open(1, comp_file(rng, layout(rng, i), st, rl, comp), cells='raw', det=False)
        s.ops(1, [('rows', 2)] + ['row'] * 5)
    # a last command that just fits its row, or exceeds it by little or much; streams of a byte or two after a full row
    for i in range(40 * k):
        comp = ['RLE', 'RDC'][i % 2]
        rl = rng.choice([24, 60, 100, 300])
        full = rowlike(rng, rl).replace(b'\0', b'z')
        enc = rle_cmds if comp == 'RLE' else rdc_cmds
        run = bytes([rng.choice(b'yz')]) * rl
        st = [full, enc(run, rng)]
        st.append(overrun(rng, rl, comp) if rng.random() < .8 else rng.randbytes(rng.choice([1, 1, 2])))
        st.append(full)
        s = b.session('overrun')
        s.open(1, comp_file(rng, layout(rng, i), st, rl, comp), cells='raw', det=False)
        s.ops(1, ['row'] * 6)
    # no file at all: random bytes, with and without a plausible start
    for i in range(40 * k):
        n = rng.choice([0, 1, 31, 32, 100, 287, 288, 289, 400, 1024, 3000])
        m = rng.randbytes(n)
        if rng.random() < .7:
            m = (MAGIC + m)[:n]
        if rng.random() < .5 and n >= 300:
            h = bytearray(m)
            l = layout(rng, i)
            h[32], h[35], h[37] = 0x33 if l.a2 else 0x22, 0x33 if l.a1 else 0x22, 1 if l.little else 0
            put(h, 196 + l.a1, l.u32(rng.choice([288, 296, 300, n])))
            put(h, 200 + l.a1, l.u32(rng.choice([1, 24, 39, 40, 41, 64, 200, 2**31, 2**32 - 1])))
            m = bytes(h[:n])
        s = b.session('random bytes')
        s.open(1, m, cells='val', file=i % 3 == 0)
        s.ops(1, [('rows', 60)])
    # temporal cells outside the calendar
    for i in range(10 * k):
        l = layout(rng, i)
        cs = [mk('D', 8, 'num', 'DATE', 'date'), mk('T', 8, 'num', 'TIME', 'time'), mk('X', 8, 'num', 'DATETIME', 'datetime')]
        v = lambda: rng.choice([1e9, -1e9, 1e18, -1e18, 1e300, -1e300, float('inf'), -float('inf'), MAXD + 1.0, MIND - 1.0, 3e11, -3e11, 0.0, 5e-324])
        rs = [b''.join(l.num(v() if rng.random() < .5 else 1.0) for _ in cs) for _ in range(4)]
        data = build(l, cs, rs, page_length=1200, plan=[('data', 4)], rng=rng, extra=False)
        s = b.session('calendar')
        s.open(1, data, **rng.choice([dict(cells='full'), dict(cells='val'), dict(sink='csv'), dict(sink='print'), dict(sink='null')]))
        s.ops(1, ['all'])
    return [b]


# ------------------------------------------------------------------------------------------------- S: what the bundled sinks write
def sink_file(rng, l, lines=False):
    cs = cols(rng, rng.randint(1, 6))
    for c in cs if lines else ():
        c.lines = True                                     # its cells may hold line ends
    odd_names = [b'a"b', b'{}', b'{0}', b'%s', b'x,y', b'"', b'""', b'two\xa0', 'd\u00e9'.encode(), b'a b', b'{:>5}', b'}']
    for c in cs:
        if rng.random() < .3:
            c.name = rng.choice(odd_names) + b'%d' % rng.randint(0, 9)
    rs = rows(rng, l, cs, rng.choice([0, 1, 4, 7]), safe=rng.random() < .7)
    return cs, rs


def sink_batch(rng, b, kinds, n):
    for i in range(n):
        l = layout(rng, i)
        cs, rs = sink_file(rng, l, lines=True)
        rl = sum(c.length for c in cs)
        comp = rng.choice([None, None, 'RLE'])
        nr = len(rs)
        plan_ = ([('meta' if comp else 'data', k) for k in (nr // 2, nr - nr // 2)] if nr else [])
        data = build(l, cs, rs, page_length=max(1100, (rl + 40) * 5 + 300), plan=plan_, compression=comp, rng=rng, extra=False, row_count=nr + rng.choice([0, 0, 2]),
                     hdr=dict(created=stamp(rng), modified=stamp(rng), name=htext(rng, 64).replace(b'\n', b''), ostype=htext(rng, 16)))
        kind = kinds[i % len(kinds)]
        s = b.session(kind)
        names = [c.name for c in cs]
        kw = rng.choice([{}, {}, {}, dict(inc=names[:1]), dict(exc=names[:1]), dict(exc=names)])
        s.open(1, data, sink=kind, file=rng.random() < .2, **kw)
        h = rng.choice([['all'], ['all'], [('rows', nr)], ['row', ('skip', 1), 'all'], [('skip', 1), 'row', 'eod'], ['nosink', 'row', 'row'], []])
        s.ops(1, h)
        last = 1
        if rng.random() < .3:
            s.op(rng.choice(['mv', 'ma']), 1, 2)
            s.ops(2, ['row', 'all'])
            last = 2
        s.op('del' if kind == 'csvfile' else 'text', last)


def long_sink(rng, b, sinks, k):
    for i in range(k):
        sk = rng.choice(sinks)
        for nm, data in (('long', long_file(rng, rng.choice([1001, 1030, 1300]), comp=rng.choice([None, 'RLE']))), ('many columns', many_file(rng, rng.choice([70, 130, 260]), 2))):
            s = b.session(nm)
            s.open(1, data, **(dict(sink='csv', file=True) if sk == 'csvfile' else dict(sink=sk)))
            s.ops(1, ['all', 'text'])


@prop('S01', canary=('text',))
def s01(rng, tier, exports):
    k = 2 if tier == 'quick' else 10
    b = Batch(['text'], 'csv')
    sink_batch(rng, b, ['csv', 'csv', 'csvfile'], 90 * k)
    long_sink(rng, b, ['csv', 'csvfile'], k)
    # numbers whose shortest decimal form is not obvious
    for i in range(6 * k):
        l = layout(rng, i)
        cs = [mk('A', 8), mk('B', 8), mk('I', 2, kind='int2')]
        rs = []
        for _ in range(8):
            v = lambda: rng.choice([rng.uniform(-1, 1), rng.uniform(-1e9, 1e9), 10.0**rng.randint(-30, 30), 2.0**rng.randint(-60, 60), rng.choice([0.1, 1/3, 1e22, 1e16, 123456789012345680.0, 5e-5, 1e-4, 1e-7,
                            9007199254740993.0, -0.0, 0.30000000000000004, 1e21, 123456.7, 99999.95, 1e100, 1.7976931348623157e308, 2.2250738585072014e-308])])
            rs.append(l.num(v()) + l.num(v()) + l.i16(rng.randint(-32768, 32767)))
        data = build(l, cs, rs, page_length=1200, plan=[('data', 8)], rng=rng, extra=False)
        s = b.session('decimals')
        s.open(1, data, sink='csv')
        s.ops(1, ['all', 'text'])
    return [b]


@prop('S02', canary=('text',))
def s02(rng, tier, exports):
    k = 2 if tier == 'quick' else 10
    b = Batch(['text'], 'print')
    sink_batch(rng, b, ['print'], 90 * k)
    long_sink(rng, b, ['print'], k)
    for i in range(k):
        s = b.session('far')
        s.open(1, far_file(rng, i), sink='print')
        s.ops(1, far_ops(rng) + ['text'])
    return [b]


# ------------------------------------------------------------------------------------------------- C: the command line tool
BASES = ['a', 'data', 'x.y', 'v1.2.3', '.hidden', 'two words', 'A-b', '..odd', 'x.csv', 'caf\u00e9', 'trail.', 'q"t']
EXTS = ['.sas7bdat', '.sas7bdat', '.sas7bdat', '.SAS7BDAT', '.dat', '', '.csv', '.CSV', '.csv.bak', '.s.d', '.']
DIRS = ['', '', '', 'd/', 'd.e/', 'd.e/f/', '.d/', 'csv.csv/']


def cli_name(rng):
    return rng.choice(DIRS) + rng.choice(BASES) + rng.choice(EXTS)


def csv_of(p):
    d, b = os.path.split(p)
    k = b.rfind('.')
    return os.path.join(d, (b[:k] if k > 0 else b) + '.csv')


def cli_file(rng, i):
    """content of one input: mostly good, sometimes cut, damaged or no dataset at all"""
    l = layout(rng, i)
    x = rng.random()
    if x < .06:
        return rng.choice([b'', b'not a dataset', MAGIC, MAGIC + bytes(300), rng.randbytes(400)])
    if rng.random() < .5:
        cs, rs = sink_file(rng, l)
        rl = sum(c.length for c in cs)
        nr = len(rs)
        comp = rng.choice([None, None, 'RLE'])
        plan_ = ([('meta' if comp else 'data', k) for k in (nr // 2, nr - nr // 2)] if nr else [])
        data = build(l, cs, rs, page_length=max(1100, (rl + 40) * 5 + 300), plan=plan_, compression=comp, rng=rng, extra=False, row_count=nr + rng.choice([0, 0, 2]),
                     hdr=dict(created=stamp(rng), modified=stamp(rng), name=htext(rng, 64).replace(b'\n', b''), ostype=htext(rng, 16)))
    else:
        data, _ = dataset(rng, ncols=rng.randint(1, 4), nrows=rng.choice([0, 1, 3, 9]), l=l, comp=rng.choice([None, 'RLE']), page_length=rng.choice([1100, 2048]), safe=True)
    if x < .12:
        data = data[:rng.randrange(len(data))]
    return data


def bad_rows(rng, i):
    """a dataset whose properties are fine and one of whose rows is not: only reading the rows shows it"""
    l = layout(rng, i)
    rl = rng.choice([24, 40, 100])
    good = lambda: min((rle_cmds(rowlike(rng, rl), rng) for _ in range(5)), key=len)
    ss = [x if len(x) < rl else rng.randbytes(rl) for x in [good() for _ in range(rng.randint(1, 4))]]
    x = rng.random()
    s = bytearray(rng.choice([b'\x40', b'\xc1\x20', b'\xf2', b'\x60\x01', b'\x70\xff', b'\x00\x20abc']) if x < .5 else good()[:rl - 1])
    if x >= .5 and s:
        s[rng.randrange(len(s))] ^= rng.choice([1, 16, 64, 255])
    ss[rng.randrange(len(ss))] = bytes(s)[:rl - 1]
    return comp_file(rng, l, ss, rl, 'RLE')


@prop('C01', mode='cli', canary=('out', 'status', 'input', 'gone', 'content', 'extra'), mc=[('MC_Cli', dict(quick='MC_Cli.cfg', thorough='MC_Cli.cfg'))])
def c01(rng, tier, exports):
    k = 1 if tier == 'quick' else 10
    b = CliBatch()
    for i in range(150 * k):
        op = ['csv', 'csv', 'print', 'print', 'null', 'csv'][i % 6]
        nfiles = rng.choice([1, 1, 2, 2, 3])
        names, nodes = [], []
        for _ in range(nfiles):
            p = cli_name(rng)
            if p in [n[0] for n in names]:
                continue
            names.append((p, len(nodes), 'file'))
            nodes.append(cli_file(rng, i))
        args = [n[0] for n in names]
        taken = lambda p: p in [n[0] for n in names] or any(n[0].startswith(p + '/') or p.startswith(n[0] + '/') for n in names)
        r = rng.random()
        if r < .25:                    # an older output, a link to the input under its csv name, another input under it
            o = csv_of(args[0])
            if not taken(o):
                y = rng.random()
                if y < .15:
                    names.append((o, len(nodes), rng.choice(['dir', 'full'])))
                    nodes.append(b'')
                elif y < .4:
                    names.append((o, len(nodes), 'file'))
                    nodes.append(rng.choice([b'', b'old', b'"old","text"\n' * 2000]))
                elif y < .8:
                    names.append((o, rng.randrange(len(args)), rng.choice(['sym', 'hard'])))
                else:
                    names.append((o, len(nodes), 'file'))
                    nodes.append(cli_file(rng, i + 1))
                    args.append(o)
        elif r < .4:                   # the input goes by another name
            p = cli_name(rng)
            if not taken(p):
                names.append((p, 0, rng.choice(['sym', 'hard'])))
                args[rng.randrange(len(args))] = p
        elif r < .5:
            args.insert(rng.randint(0, len(args)), rng.choice(args))
        elif r < .56:
            args.insert(rng.randint(0, len(args)), 'missing.sas7bdat')
            if rng.random() < .3:      # a directory is no dataset
                names.append(('missing.sas7bdat', len(nodes), 'dir'))
                nodes.append(b'')
        elif r < .62:                  # bystanders
            for p in ('other.csv', 'd/data.csv', 'csv'):
                if not taken(p):
                    names.append((p, len(nodes), 'file'))
                    nodes.append(b'bystander')
        # a directory and a file cannot share a name
        if any(a != c and (c[0].startswith(a[0] + '/')) for a in names for c in names):
            continue
        nl = None
        if op == 'print' and rng.random() < .7:
            nl = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 8, -1, 100, 'x', '', 4294967296])
            if nl == '':
                nl = None
        idx = range(len(args))
        b.run(op, nodes, names, op, args, nl, absolute=[j for j in idx if rng.random() < .15], prefix=[j for j in idx if rng.random() < .15], full=op != 'csv' and rng.random() < .1)
    for i in range(20 * k):            # rows that cannot be read
        op = ['null', 'print', 'null', 'csv'][i % 4]
        nodes = [bad_rows(rng, i)] + ([cli_file(rng, i)] if rng.random() < .3 else [])
        names = [(p, j, 'file') for j, p in enumerate(['a.sas7bdat', 'b.sas7bdat'][:len(nodes)])]
        args = [n[0] for n in names]
        rng.shuffle(args)
        b.run('rows ' + op, nodes, names, op, args)
    for op, args in (('csv', []), ('frob', ['a.sas7bdat']), ('print', [])):
        b.run('usage', [cli_file(rng, 0)], [('a.sas7bdat', 0, 'file')], op, args)
    return [b]


# ------------------------------------------------------------------------------------------------- P, Q: the Python and R bindings
def utf8(b):
    try:
        b.decode()
        return True
    except ValueError:
        return False


def bind_cols(rng, n, **kw):
    """columns whose names are different texts"""
    cs = cols(rng, n, **kw)
    seen = set()
    for k, c in enumerate(cs):
        c.name = c.name if utf8(c.name) else b'N'
        while c.name in seen:
            c.name += b'%d' % k
        seen.add(c.name)
        c.label = c.label if utf8(c.label) else b'L'
    return cs


BIND_KINDS = ['num8', 'num', 'int1', 'int2', 'chr', 'date', 'time', 'datetime', 'chr', 'num8', 'unk']


def bind_ops(rng, b, hist, bundled):
    out = []
    for x in hist:
        o, n = x if isinstance(x, tuple) else (x, 0)
        if o in ('nosink', 'idx'):
            o, n = rng.choice([('row', 0), ('rows', 2), ('skip', 1)])
        if o in ('rows', 'skip'):
            out.append([o, max(0, n)])
        else:
            out.append(o)
        if b.lang == 'py' and rng.random() < .15:
            out.append('flush')
        if bundled and rng.random() < .3:
            out.append('df')
    return out


def bind_tail(rng, b, bundled, ops):
    """the end of a session: data of a reader that is gone must still be there"""
    ops += rng.choice([[], [], ['eod'], ['all'], ['all', 'all'], ['eod', 'eod']])
    if rng.random() < .2:
        ops.append('keepprops')
    if rng.random() < .5:
        ops.append('del')
        if b.lang == 'py' and rng.random() < .4:
            ops.append('flush')
    if bundled:
        ops.append('df')
        if rng.random() < .4:
            ops.append('own')
    return ops


def bind_histories(rng, b, exports, n):
    """behaviours TLC generated, seen through each kind of sink and chunk size"""
    tests = [t for t in exports if not t['fail']]
    for i in range(n):
        test = rng.choice(tests)
        sc = rng.choice([1, 1, 2, 3])
        data, _ = concretize(rng, test, scale=sc, comp=rng.choice(['RLE', None]) if not any(k == 'sub' for k, _ in test['pages']) else 'RLE',
                             cs=bind_cols(rng, rng.randint(1, 3), plain=b.lang == 'r', kinds=['num8', 'num8', 'int2', 'chr', 'date', 'datetime', 'time', 'num', 'unk'], maxchr=12))
        kind = ['row', 'chunk', 'chunk', 'data'][i % 4]
        bundled = rng.random() < .5
        total = sum(k for _, k in test['pages']) * sc
        size = rng.choice([1, 2, 3, 4, 5, 7, max(1, total - 1), max(1, total), total + 1, 10000]) if kind == 'chunk' else 0
        if kind == 'chunk' and not bundled and rng.random() < .08:
            size = 0
        ops = bind_tail(rng, b, bundled, bind_ops(rng, b, abstract_hist(rng, test, sc), bundled))
        b.run('tlc ' + kind, data, kind, ops, size=size, bundled=bundled)


@prop('P01', mode='py', export=EXP, canary=('drop', 'dup', 'alias', 'cellval', 'span', 'df'),
      mc=[('MC_Binding', dict(quick='MC_Binding.cfg', thorough='MC_Binding_t.cfg'))])
def p01(rng, tier, exports, cls=BindBatch):
    k = 1 if tier == 'quick' else 10
    b = cls(['cells', 'idx'], 'histories')
    bind_histories(rng, b, exports, 220 * k)
    for i in range(60 * k):               # random files and column selections
        l = layout(rng, i)
        kind = rng.choice(['row', 'chunk', 'chunk', 'data'])
        cs = bind_cols(rng, rng.randint(1, 6), plain=b.lang == 'r', kinds=BIND_KINDS)
        nr = rng.choice([0, 1, 2, 5, 9, 30])
        data = bind_file(rng, l, cs, rows(rng, l, cs, nr, safe=True), rc=nr + rng.choice([0, 0, 0, 1, -1]) if nr else 0)
        bundled = rng.random() < .5
        names = [list(c.name) for c in cs]
        kw = rng.choice([{}, {}, dict(inc=rng.sample(names, rng.randint(1, len(names)))), dict(exc=rng.sample(names, rng.randint(1, len(names)))),
                         dict(inc=names, exc=names[:1])])
        ops = bind_tail(rng, b, bundled, bind_ops(rng, b, history(rng, rng.randint(1, 6), nr), bundled))
        b.run('random ' + kind, data, kind, ops, size=rng.choice([1, 2, 3, 4, 10, 100]) if kind == 'chunk' else 0, bundled=bundled, **kw)
    for i in range(2 * k):                # many rows, large chunks
        n = rng.choice([520, 700, 1030])
        kind = ['chunk', 'data', 'chunk', 'row'][i % 4]
        cs = [mk('A', 8), mk('B', 1, kind='int1')]
        bundled = rng.random() < .6
        b.run('long ' + kind, long_file(rng, n, cs, rng.choice([None, 'RLE'])), kind, bind_tail(rng, b, bundled, rng.choice([['all'], [['rows', 300], 'all'], ['row', ['skip', 255], ['rows', 200], 'all']])),
              size=rng.choice([128, 255, 256, 257, 300, 1000]) if kind == 'chunk' else 0, bundled=bundled)
    for i in range(3 * k):                # row numbers beyond 16 bits
        kind = ['chunk', 'row', 'chunk'][i % 3]
        ops = [list(x) if isinstance(x, tuple) else x for x in far_ops(rng)]
        b.run('far ' + kind, far_file(rng, i), kind, bind_tail(rng, b, False, ops), size=rng.choice([3, 7, 20, 1000]) if kind == 'chunk' else 0, bundled=False)
    for i in range(6 * k):                # chunks larger than the data, by far
        kind, bundled = 'chunk', rng.random() < .5
        cs = bind_cols(rng, rng.randint(1, 3), plain=b.lang == 'r')
        l = layout(rng, i)
        nr = rng.choice([3, 7, 40])
        data = bind_file(rng, l, cs, rows(rng, l, cs, nr, safe=True))
        size = rng.choice([65536, 65537, 65538, 65541, 100000, 131075, 2**20 + 1])
        b.run('large chunk', data, kind, bind_tail(rng, b, bundled, bind_ops(rng, b, history(rng, rng.randint(1, 4), nr), bundled)), size=size, bundled=bundled)
    for i in range(16 * k):               # the bundled sinks on their own, and read_sas
        l = layout(rng, i)
        kind = ['data', 'row', 'chunk', 'data'][i % 4]
        cs = bind_cols(rng, rng.randint(1, 5), plain=b.lang == 'r')
        nr = rng.choice([1, 4, 12])
        data = bind_file(rng, l, cs, rows(rng, l, cs, nr, safe=True))
        rs = rng.random() < .6
        b.run('bundled', data, kind, ['df'] if rs else bind_tail(rng, b, True, bind_ops(rng, b, history(rng, rng.randint(1, 4), nr), True)), size=rng.choice([1, 3, 100]) if kind == 'chunk' else 0,
              bundled=True, quiet=True, readsas=rs, total=nr)
    return [b]


def bind_file(rng, l, cs, rs, rc=None, comp='any', **hdr):
    comp = rng.choice([None, None, 'RLE']) if comp == 'any' else comp
    nr, rl = len(rs), sum(c.length for c in cs)
    a = rng.randint(0, nr)
    plan_ = [('meta' if comp else 'data', x) for x in (a, nr - a) if x]
    return build(l, cs, rs, page_length=max(1100, (rl + 40) * (nr + 1) + 300), plan=plan_, compression=comp, rng=rng, extra=False,
                 row_count=nr if rc is None else rc, **hdr)


def p02_props(rng, b, n):
    """headers, metadata and columns"""
    wide32 = [0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
    wide64 = wide32 + [2**32, 2**32 + 7, 2**40, 2**53, 2**63, 2**64 - 1]
    for i in range(n):
        l = layout(rng, i)
        pad = rng.choice([b'\0', b' '])
        r = b.lang == 'r'

        def fld(m, t=None):
            t = htext(rng, m)
            while not utf8(t) and rng.random() < .95:
                t = htext(rng, m)
            return t + pad * (m - len(t))
        hdr = dict(enc=rng.randint(0, 255), platform=rng.choice([b'1', b'2', b'1', b'2', bytes([rng.randint(0, 255)])]), name=fld(64), ftype=fld(8), release=fld(8),
                   server=fld(16), ostype=fld(16), osmaker=fld(16), osname=fld(16) if rng.random() < .6 else b'',
                   created=stamp(rng) if rng.random() < .9 else l.num(rng.choice(MISS)), modified=stamp(rng) if rng.random() < .9 else l.num(rng.choice(MISS)),
                   fill=rng.choice([0, 0, 0x41]))
        hl = rng.choice([296, 512, 1024, 1025, 700])
        w = wide64 if l.bits == 64 else wide32
        t = lambda m: rng.choice([b'', b'a', b'ab ', b' ab', b'a b', b'\0', b'a\0b', b'\x7fa', '\u00e9\u4e2d'.encode(), b'  x  ', bytes(rng.choice(b'abcXYZ') for _ in range(m))])
        cs, seen = [], set()
        for j in range(rng.randint(1, 7)):
            f = rng.choice(FORMATS).encode() if rng.random() < .5 else near_format(rng).encode()
            c = Col(t(12), rng.choice([1, 2, 3, 5, 8, 8, 8, 9, 0]), rng.choice(['num', 'num', 'chr']), f if rng.random() < .8 else t(8), t(20))
            if rng.random() < .03:
                c.label = rng.randbytes(4)
            while c.name in seen and rng.random() < .9:
                c.name += b'%d' % j
            seen.add(c.name)
            cs.append(c)
        comp = rng.choice([None, 'RLE', 'RDC'])
        kw = dict(creator_proc=rng.choice([b'DATASTEP', b'SORT', b'', b'SQL     ', b'\xc3\xa9', b'PROC WITH BLANK']),
                  creator=rng.choice([b'', b'', b'CREATOR', b'ab   ']) if comp is None else b'')
        if rng.random() < .3:
            kw['lcs'] = rng.choice([0, 1, 8, 20])
        if rng.random() < .3:
            kw['lcp'] = rng.choice([0, 1, 3, 8, 20])
        big = rng.random() < .6
        kind = rng.choice(['row', 'chunk', 'data'])
        own = rng.random() < .25              # a bundled sink keeps them
        if kind == 'data' or (own and b.lang == 'r'):                    # a whole data sink makes room for that many rows
            w = [0, 1, 255, 256, 65535, 65536]
        data = build(l, cs, [], page_length=2048, plan=[('data', 0)], header_length=hl, hdr=hdr, rng=rng, extra=rng.random() < .2, compression=comp,
                     row_count=rng.choice(w) if big else 0, mixrows=rng.choice(w) if big else 0, spread=rng.choice([None, 1, 2]), shuffle=rng.random() < .4,
                     maxblock=rng.choice([32000, 60, 200]), **kw)
        b.run('properties', data, kind, rng.choice([['props'], ['props', 'eod', 'props'], [['props', 1], 'keepprops', 'del']] + ([['own'], ['eod', 'own'], ['del', 'own']] if own else [])),
              size=rng.choice([1, 5]) if kind == 'chunk' else 0, bundled=own, quiet=own and rng.random() < .5)


def p02_values(rng, b, n):
    """cells of every type through every kind of sink"""
    plain = b.lang == 'r'
    edge = [0, 9, 10, 31, 32, 33, 65, 127, 128, 194, 195, 255]
    for i in range(2 if n < 500 else 10):
        kind = ['chunk', 'data', 'row'][(i + rng.randrange(3)) % 3]
        b.run('many columns', many_file(rng, rng.choice([80, 130, 260]), 3), kind, ['all', 'df'], size=2 if kind == 'chunk' else 0, bundled=True)
        cs = [mk('S', rng.choice([255, 256, 300, 5000, 32767]), 'chr', '', 'chr'), mk('N', 8), mk('U', 260, 'chr', '', 'chr')]
        l = layout(rng)
        rs = [rng.choice([b'x' * cs[0].length, b'ab'.ljust(200, b'c'), b'', b'y' * (cs[0].length - 1)]).ljust(cs[0].length) + l.num(float(j)) + (b'z' * rng.choice([255, 256, 257, 260])).ljust(260) for j in range(4)]
        b.run('long texts', bind_file(rng, l, cs, rs), kind, ['all'], size=3 if kind == 'chunk' else 0)
    for i in range(n):
        l = layout(rng, i)
        cs = []
        for j in range(rng.randint(2, 8)):
            kd = rng.choice(['num', 'num', 'int1', 'int2', 'chr', 'date', 'time', 'datetime', 'unk'])
            nm = 'C%d' % j
            if kd == 'chr':
                cs.append(mk(nm, rng.choice([1, 2, 3, 8, 20]), 'chr', rng.choice(['', '$', 'DATE']), 'chr'))
            elif kd in ('int1', 'int2'):
                cs.append(mk(nm, int(kd[3]), kind=kd, fmt=rng.choice(['', 'DATE', 'BEST'])))
            elif kd == 'unk':
                cs.append(mk(nm, rng.choice([9, 10, 16]), kind='unk'))
            elif kd == 'num':
                cs.append(mk(nm, rng.choice([3, 4, 5, 6, 7, 8, 8]), fmt=rng.choice(PLAIN)))
            else:
                cs.append(mk(nm, 8 if rng.random() < .6 else rng.randint(3, 7), 'num', rng.choice(dict(date=DATE, time=TIME, datetime=DATETIME)[kd]), kd))
        nr = rng.choice([1, 2, 5, 8])
        rs = rows(rng, l, cs, nr)
        out = []
        for row in rs:
            o, new = 0, b''
            for c in cs:
                x = row[o:o + c.length]
                o += c.length
                if c.typ == 'chr' and rng.random() < .4:
                    x = bytes(rng.choice(edge) for _ in range(c.length))
                new += x
            out.append(new)
        data = bind_file(rng, l, cs, out)
        kind = rng.choice(['row', 'chunk', 'data'])
        bundled = rng.random() < .3
        b.run('values ' + kind, data, kind, rng.choice([['all'], [['rows', nr]], ['row', ['rows', 3], 'eod'], [['rows', 1], 'all']]) + (['df'] if bundled else []),
              size=rng.choice([1, 2, 3, nr, 100]) if kind == 'chunk' else 0, bundled=bundled)
    # month ends, leap days and year boundaries; all 2-byte patterns of note
    import datetime
    for i in range(max(2, n // 20)):
        l = layout(rng, i * 3 + 2)
        cs = [mk('D', 8, 'num', 'DATE', 'date'), mk('DT', 8, 'num', 'DATETIME', 'datetime'), mk('T', 8, 'num', 'TIME', 'time'), mk('A', 1, kind='int1'), mk('B', 2, kind='int2')]
        rs = []
        for j in range(60):
            y = rng.choice([1400, 1582, 1600, 1899, 1900, 1904, 1959, 1960, 1969, 1970, 2000, 2038, 2100, 9999, rng.randint(1400, 9999)])
            m, dd = rng.choice([(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (rng.randint(1, 12), 1), (4, 30), (10, 31)])
            try:
                o = datetime.date(y, m, dd).toordinal()
            except ValueError:
                o = datetime.date(y, 3, 1).toordinal()
            d = o - datetime.date(1960, 1, 1).toordinal()
            v = float(d) * 86400 + rng.choice([0, 1, 86399, 43200, 3599, 3600, rng.randint(0, 86399)]) + rng.choice([0, 0, .5, .25, .001, .000001, .999999])
            if near_tie(dbytes(v)) or v >= (MAXD + 1) * 86400.0:
                v = float(d) * 86400
            t = float(rng.randint(0, 86399)) + rng.choice([0, .5, .001, .999999])
            rs.append(l.num(float(d)) + l.num(v) + l.num(int(t) if near_tie(dbytes(t)) else t) + bytes([(4 * j + i) % 256]) + l.i16(rng.choice([j * 1092 - 32768, -j, j << 8, rng.randint(-32768, 32767)])))
        data = build(l, cs, rs, page_length=4000, plan=[('data', 30), ('data', 30)], rng=rng, extra=False)
        kind = ['row', 'chunk', 'data'][i % 3]
        b.run('calendar ' + kind, data, kind, ['all'], size=7 if kind == 'chunk' else 0)
    # cells no calendar has
    for i in range(max(2, n // 12)):
        l = layout(rng, i)
        cs = [mk('D', 8, 'num', 'DATE', 'date'), mk('T', 8, 'num', 'TIME', 'time'), mk('X', 8, 'num', 'DATETIME', 'datetime')]
        v = lambda: rng.choice([1e9, -1e9, 1e18, -1e18, 1e300, -1e300, float('inf'), -float('inf'), MAXD + 1.0, MIND - 1.0, 3e11, -3e11, 0.0, 5e-324])
        rs = [b''.join(l.num(v() if rng.random() < .5 else 1.0) for _ in cs) for _ in range(4)]
        kind = rng.choice(['row', 'chunk', 'data'])
        b.run('off calendar', build(l, cs, rs, page_length=1200, plan=[('data', 4)], rng=rng, extra=False), kind, ['all', 'eod'], size=3 if kind == 'chunk' else 0)


def p02_faults(rng, b, n):
    """files that end early or are damaged, sinks that fail, arguments that are none"""
    for i in range(n):
        l = layout(rng, i)
        data, info = dataset(rng, ncols=rng.randint(1, 4), nrows=rng.choice([3, 9, 20]), l=l, page_length=(808 if l.bits == 64 else 480) + rng.choice([64, 200]),
                             comp=rng.choice([None, 'RLE']), plain=True)
        x = dict(build.info)
        kind = rng.choice(['row', 'chunk', 'data'])
        bundled = rng.random() < .4
        nr = len(info['rows'])
        size = rng.choice([1, 2, 3, 7, 100]) if kind == 'chunk' else 0
        ops = bind_tail(rng, b, bundled, bind_ops(rng, b, history(rng, rng.randint(1, 5), nr), bundled))
        kd = i % 7
        if kd == 0:       # ends early, mostly at a page's edge
            edge_ = rng.choice(pages_of(l, data, x)) + rng.choice([0, 0, -1, 1, 20])
            b.run('cut', data, kind, ops, size=size, bundled=bundled, trunc=max(0, min(len(data) - 1, edge_ if rng.random() < .7 else rng.randrange(len(data)))))
        elif kd in (1, 2):
            m, _ = mutate(rng, data, l, x)
            b.run('damaged', m, kind, [['rows', 60], 'row', 'eod'] if rng.random() < .7 else ['props', ['rows', 60]], size=size)
        elif kd in (3, 4):
            kind = rng.choice(['row', 'row', 'chunk', 'data'])
            size = rng.choice([1, 2, 3]) if kind == 'chunk' else 0
            b.run('boom', data, kind, [['rows', 4], 'all', 'eod', 'row'], size=size, bundled=bundled,
                  boom=rng.choice([0, 1, 1, 2, 3, 5]) if kind != 'data' else rng.choice([0, 1]))
        elif kd == 5:
            bad = rng.choice(['sink', 'inc', 'exc', 'size', 'file'])
            b.run('misuse ' + bad, data, 'chunk' if bad == 'size' else kind, ['all'], size=2 if bad == 'size' else size, bad=bad, bad_value=rng.randrange(5))
        else:
            b.run('well-formed', data, kind, ops, size=size, bundled=bundled)


def p02_filters(rng, b, n):
    for i in range(n):
        l = layout(rng, i)
        cs = bind_cols(rng, rng.randint(1, 6), plain=b.lang == 'r' or rng.random() < .5, kinds=BIND_KINDS)
        if rng.random() < .15 and len(cs) > 1:
            cs[-1].name = cs[0].name
        rs = rows(rng, l, cs, rng.choice([0, 2, 4]), safe=True)
        names = [c.name for c in cs]
        nn = lambda x: next(y for y in iter(lambda: near_name(rng, x), None) if utf8(y))
        pick = lambda: [list(nn(x)) for x in names if rng.random() < .5] + ([list(rng.choice(names))] if rng.random() < .3 else [])
        kw = [dict(inc=pick()), dict(exc=pick()), dict(inc=pick(), exc=pick()), dict(inc=[], exc=pick()), dict(inc=[]), dict(exc=[])][i % 6]
        kind = rng.choice(['row', 'row', 'chunk', 'data'])
        b.run('filter', bind_file(rng, l, cs, rs, rc=len(rs)), kind, ['props', 'all'], size=rng.choice([1, 3]) if kind == 'chunk' else 0, **kw)


@prop('P02', mode='py', canary=('props', 'colname', 'cellval', 'ret'))
def p02(rng, tier, exports, cls=BindBatch):
    k = 1 if tier == 'quick' else 8
    b = cls(['hdr', 'meta', 'cols', 'types', 'cells', 'idx'], 'what the user sees')
    p02_props(rng, b, 110 * k)
    p02_values(rng, b, 90 * k)
    p02_filters(rng, b, 48 * k)
    p02_faults(rng, b, 140 * k)
    return [b]


@prop('Q01', mode='r', export=EXP, canary=('drop', 'dup', 'alias', 'cellval', 'span', 'df'),
      mc=[('MC_Binding', dict(quick='MC_Binding.cfg', thorough='MC_Binding_t.cfg'))])
def q01(rng, tier, exports):
    return p01(rng, tier, exports, RBatch)


@prop('Q02', mode='r', canary=('props', 'colname', 'cellval', 'ret'))
def q02(rng, tier, exports):
    return p02(rng, tier, exports, RBatch)
