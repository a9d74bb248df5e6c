"""Random proposals: datasets, layouts, page plans, call histories.  Nothing here decides what is right."""
import math, os, random, struct
from sasgen import *

LAYOUTS = [(b, le, a1) for b in (32, 64) for le in (True, False) for a1 in (False, True)]


def layout(rng, i=None):
    b, le, a1 = LAYOUTS[i % 8] if i is not None else rng.choice(LAYOUTS)
    # most files align like their width does
    if i is None and rng.random() < .5:
        a1 = b == 64
    return L(b, le, a1, sigvar=rng.choice([None, None, None, 0, 1]) if b == 64 else None)


DATETIME = ('DATETIME DTWKDATX B8601DN B8601DT B8601DX B8601DZ B8601LX E8601DN E8601DT E8601DX E8601DZ E8601LX DATEAMPM '
            'DTDATE DTMONYY DTYEAR TOD MDYAMPM').split()
DATE = ('DATE DAY DDMMYY DOWNAME JULDAY JULIAN MMDDYY MMYY MMYYC MMYYD MMYYP MMYYS MMYYN MONNAME MONTH MONYY QTR QTRR NENGO '
        'WEEKDATE WEEKDATX WEEKDAY WEEKV WORDDATE WORDDATX YEAR YYMM YYMMC YYMMD YYMMP YYMMS YYMMN YYMON YYMMDD YYQ YYQC '
        'YYQD YYQP YYQS YYQN YYQR YYQRC YYQRD YYQRP YYQRS YYQRN YYMMDDP YYMMDDC E8601DA YYMMDDN MMDDYYC MMDDYYS MMDDYYD '
        'YYMMDDS B8601DA DDMMYYN YYMMDDD DDMMYYB DDMMYYP MMDDYYP YYMMDDB MMDDYYN DDMMYYC DDMMYYD DDMMYYS MINGUO').split()
TIME = ['TIME']
PLAIN = ['', 'BEST', 'COMMA', 'F', 'DOLLAR', 'PERCENT', 'HHMM', 'TIMEAMPM', 'Z', 'CHAR', '$']

WORDS = ['ID', 'NAME', 'Value', 'x', 'Date of birth', 'caf\u00e9', 'a"b', 'Total_2', 'COL', '_N_', 'Zeit', '\u6771\u4eac', 'A' * 32]
TEXTS = [b'', b'a', b'hello', b'  lead', b'tail  ', b'a b  c', b'\xc3\xa9t\xc3\xa9', b'\x00mid', b'in\x00side', b'\xa0nbsp\xa0',
         b'x\t', b'"q"', b'a,b', b'\x7f', b'\xff\xfe', b'tab\tin', b'a\nb', b'a\r\nb', b'\rcr', b'0', b'nan', b'\xe6\x9d\xb1']


def name(rng, i, plain=False):
    if plain:
        return 'C%d' % i
    r = rng.random()
    if r < .5:
        return rng.choice(WORDS) + str(i)
    if r < .8:
        return ''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ_abc0123456789') for _ in range(rng.randint(1, 32)))
    return 'C%d' % i


def cols(rng, n, kinds=None, plain=False, maxchr=24, labels=True):
    out = []
    kinds = kinds or ['num8', 'num', 'int1', 'int2', 'chr', 'date', 'time', 'datetime'] * 2 + ['unk']
    for i in range(n):
        k = rng.choice(kinds)
        nm = name(rng, i, plain)
        lab = rng.choice(['', '', 'label %d' % i, 'L', 'a longer label with blanks %d' % i, 'd\u00e9j\u00e0']) if labels and not plain else ''
        if k == 'chr':
            c = Col(nm, rng.choice([1, 2, 3, 7, 8, rng.randint(1, maxchr)]), 'chr', rng.choice(['', '$', '$CHAR', 'DATE']), lab)
        elif k == 'int1':
            c = Col(nm, 1, 'num', rng.choice(['', 'BEST', 'DATE', 'TIME']), lab)
        elif k == 'int2':
            c = Col(nm, 2, 'num', rng.choice(['', 'BEST', 'DATETIME']), lab)
        elif k == 'num8':
            c = Col(nm, 8, 'num', rng.choice(PLAIN), lab)
        elif k == 'num':
            c = Col(nm, rng.randint(3, 7), 'num', rng.choice(PLAIN), lab)
        elif k == 'unk':
            c = Col(nm, rng.choice([9, 10, 16]), 'num', rng.choice(PLAIN + ['DATE']), lab)
        else:
            c = Col(nm, 8 if rng.random() < .7 else rng.randint(3, 7), 'num',
                    rng.choice(dict(date=DATE, time=TIME, datetime=DATETIME)[k]), lab)
        c.kind = k
        out.append(c)
    return out


def dbytes(v):
    return struct.pack('>d', v)


NAN = bytes.fromhex('fffffe0000000000')
MISS = [bytes([0xff, 0xff, x, 0, 0, 0, 0, 0]) for x in (0xfe, 0xd1, 0xbe, 0xa5)] + [bytes.fromhex('7ff8000000000001')]


def number(rng, safe=False):
    """8 bytes, most significant first.  safe: at most 15 significant digits, exactly"""
    r = rng.random()
    if r < .08:
        return rng.choice(MISS)
    if safe:
        return dbytes(rng.choice([0.0, 1.0, -1.0, 0.5, -0.25, 123456.0, 1e6, 99999.0, 0.125, -7.75, 1024.0, 65536.0, 3.0]) if r < .6
                      else rng.choice([-1, 1]) * float(rng.randint(0, 10**rng.randint(1, 9))) / 2**rng.randint(0, 5))
    if r < .3:
        return dbytes(float(rng.randint(-1000, 1000)))
    if r < .5:
        return dbytes(rng.uniform(-1e6, 1e6))
    if r < .6:
        return dbytes(rng.choice([0.0, -0.0, 1e-310, 5e-324, 1.7976931348623157e308, float('inf'), -float('inf'), 2.0**53, -2.0**63,
                                  0.1, 1/3, -1e-5, 1e22]))
    if r < .8:
        return rng.randbytes(8)
    return dbytes(rng.choice([-1, 1]) * rng.random() * 10.0**rng.randint(-8, 15))


MIND, MAXD = -204535, 2936549        # 1400-01-01, 9999-12-31


def days(rng):
    r = rng.random()
    if r < .1:
        return rng.choice([0, -1, 1, 59, 60, 365, 366, -365, -366, 14669, 15034, 51254, -21549, MIND, MAXD, MAXD - 1, MIND + 1])
    if r < .6:
        return rng.randint(-30000, 60000)
    return rng.randint(MIND, MAXD)


def temporal(rng, kind, miss=.1):
    if rng.random() < miss:
        return rng.choice(MISS)
    if kind == 'date':
        d = days(rng)
        if rng.random() < .25 and MIND < d < MAXD:      # days with a fraction are rounded
            return dbytes(d + rng.choice([.25, .49, .5, .51, .75, .999, -.3, -.6, rng.random()]))
        return dbytes(float(d))
    if kind == 'time':
        r = rng.random()
        s = rng.randint(0, 86399)
        if r < .15:
            s = rng.choice([0, 1, 59, 60, 3599, 3600, 43200, 86399])
        elif r < .3:                                    # more than a day, or before midnight
            s = rng.choice([86400, 86401, -1, -86399, -86400, 100000, 7 * 86400 + 5, rng.randint(-10**7, 10**7)])
        return dbytes(float(s) if rng.random() < .6 else s + rng.randint(0, rng.choice([999, 99999, 999999])) / 1e6)
    d = days(rng)
    s = float(d) * 86400 + rng.randint(0, 86399)
    r = rng.random()
    if r < .3:
        s += rng.randint(0, 999) / 1000
    elif r < .4:
        s += rng.randint(0, rng.choice([999, 99999, 999999])) / 1e6
    if s < MIND * 86400.0 or s >= (MAXD + 1) * 86400.0:
        s = float(d) * 86400
    return dbytes(s)


def near_tie(b):
    """within 2^-24 us of a rounding boundary of the microseconds but not on it: excluded, double rounding is not specified there"""
    v = struct.unpack('>d', b)[0]
    if v != v or math.isinf(v) or abs(v) > 1e12:
        return False
    from fractions import Fraction
    f = Fraction(v) * 1000000
    d = abs((f - math.floor(f)) - Fraction(1, 2))
    return 0 < d < Fraction(1, 1 << 11)


def cell(rng, l, c, safe=False):
    n, k = c.length, getattr(c, 'kind', None)
    if c.typ == 'chr':
        r = rng.random()
        if hasattr(c, 'lines') and r < .3:
            t = b''.join(rng.choice([b'\n', b'\r', b'\r\n', b'"', b'""', b',', b';', b'\\', b"'", b'\t', b'=', b'{}', b'%s', b'\x1a', b'a', b' ', b'z9', b'\xff', b'\x0b'])
                         for _ in range(rng.randint(1, 4))) + rng.choice([b'', b'.', b'"'])
        elif r < .3:
            t = rng.choice(TEXTS)
        elif r < .5:
            t = bytes(rng.choice(b' abcXYZ09') for _ in range(rng.randint(0, n)))
        elif r < .6:
            t = b'' if rng.random() < .5 else b'\0' * n
        elif r < .75 and not safe:
            t = rng.randbytes(rng.randint(0, n))
        else:
            t = ('v%d' % rng.randint(0, 10**6)).encode()
        if safe and not hasattr(c, 'lines'):
            t = t.replace(b'\n', b'n').replace(b'\r', b'r')
        t = t[:n]
        return t.ljust(n, rng.choice([b' ', b' ', b'\0']))
    if n == 1:
        return bytes([rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)])])
    if n == 2:
        return l.i16(rng.choice([0, 1, -1, 255, 256, -256, 32767, -32768, rng.randint(-32768, 32767)]))
    if n > 8:
        return rng.randbytes(n)
    if k in ('date', 'time', 'datetime'):
        for _ in range(20):
            b = temporal(rng, k)[:n]
            if not near_tie(b + bytes(8 - n)):
                break
        else:
            b = bytes(n)
        if n < 8:
            v = struct.unpack('>d', b + bytes(8 - n))[0]
            if v == v and k != 'date' and not (MIND * 86400.0 <= v < (MAXD + 1) * 86400.0):
                b = bytes(n)
            if v == v and k == 'date' and not MIND <= v <= MAXD:
                b = bytes(n)
        return l.num(b, n)
    return l.num(number(rng, safe)[:n] if not (safe and n < 8) else safe_short(rng, n), n)


def safe_short(rng, n):
    b = dbytes(float(rng.randint(-4096, 4096)) / 4)[:n]
    return b


def rows(rng, l, cs, n, safe=False):
    return [b''.join(cell(rng, l, c, safe) for c in cs) for _ in range(n)]


def plan(rng, l, n, row_length, page_length, comp, tight=False):
    """a random distribution of n rows over pages"""
    out, left = [], n
    per = max(1, (page_length - l.pbo - 16) // row_length)
    percx = (page_length - l.pbo - 8 - 24 - l.ptr) // (row_length + 24 + 3 * l.ptr + 8)
    perc = max(1, (page_length - l.pbo - 8) // (row_length + l.ptr + 8))
    mixn = min(rng.randint(0, max(1, min(per, n))), max(0, (page_length - l.pbo - 8 - 24) // row_length))
    while left or rng.random() < .3:
        r = rng.random() if out else rng.choice([rng.random(), .5])
        if r < .08:
            out.append(('amd',))
        elif r < .14:
            out.append(('other', rng.choice([128, 0x4000, 0x9000, 1, 255, 257, 0x384])))
        elif r < .2:
            out.append(('emptymeta',) if rng.random() < .6 else ('data', 0))
        elif comp:
            if r < .35 and rng.random() < .3:
                k = min(left, rng.randint(0, per))
                out.append(('data', k))
            else:
                k = min(left, rng.randint(0, perc) if not tight else perc)
                out.append((rng.choice(['meta', 'meta', 'metax']) if k <= percx else 'meta', k))
            left -= k
        elif r < (.4 if out else .7) and mixn and left >= mixn:
            out.append(('mix', mixn, rng.choice([MIX, MIX2])))
            left -= mixn
        else:
            k = min(left, per if tight or rng.random() < .3 else rng.randint(0, per))
            out.append(('data', k))
            left -= k
    return out, mixn


def dataset(rng, ncols=None, nrows=None, l=None, comp='any', page_length=None, safe=False, kinds=None, plain=False, rc=None,
            simple=False, **mk):
    """(bytes, info) of a random well-formed file"""
    l = l or layout(rng)
    comp = rng.choice([None, 'RLE', 'RDC']) if comp == 'any' else comp
    cs = cols(rng, ncols or rng.randint(1, 6), kinds, plain)
    n = nrows if nrows is not None else rng.choice([0, 1, 2, 5, 9, 20])
    rs = rows(rng, l, cs, n, safe)
    offs, rl, rs = storage(rng, cs, rs)
    need = (808 if l.bits == 64 else 480) + 64
    page_length = page_length or rng.choice([need, need + rng.randint(0, 400), 2048, 4096])
    page_length = max(page_length, need, rl + 120)
    pl, mixn = plan(rng, l, n, rl, page_length, comp)
    mixrows = mixn
    hdr = mk.pop('hdr', None)
    opts = dict(extra=rng.random() < .4, names_per_sub=rng.choice([1000, 1000, 1, 2, 3]), attrs_per_sub=rng.choice([1000, 1000, 1, 2]),
                maxblock=rng.choice([32000, 32000, 60, 120]), share_text=rng.random() < .2)
    if rng.random() < .5:
        opts.update(shuffle=rng.random() < .6, spread=rng.choice([None, 1, 2, 3]), amd=rng.choice([0, 0, .3]), junk=rng.choice([0, .3]))
    opts['maxblock'] = min(opts['maxblock'], max(60, page_length - 200))
    if opts['extra'] and page_length < 1024:
        opts['extra'] = False
    opts.update(mk)
    data = build(l, cs, rs, page_length=page_length, header_length=rng.choice([1024, 1024, 512, 296 + l.a2, 2000]), plan=pl,
                 compression=comp, mixrows=mixrows, rng=rng, row_count=n if rc is None else rc(n), hdr=hdr, join=.6, offs=offs, row_length=rl, **opts)
    return data, dict(l=l, cols=cs, rows=rs, plan=pl, page_length=page_length, comp=comp)


def history(rng, n, rows_hint, ops=('row', 'rows', 'skip', 'nosink', 'all', 'eod', 'idx')):
    out = []
    for _ in range(n):
        o = rng.choice(ops)
        if o in ('rows', 'skip'):
            out.append((o, rng.choice([0, 1, 2, 3, rows_hint // 2, rows_hint, rows_hint + 1, 1000])))
        else:
            out.append(o)
    return out


def concretize(rng, test, l=None, scale=1, comp=None, cs=None, page_length=None):
    """a file with the pages of an abstract test of MC_Reader: [[kind, n], ...], declared rows, failing page.
    Returns (bytes, fail position or None)"""
    pages = [(k, n * scale) for k, n in test['pages']]
    n = sum(k for _, k in pages)
    rc = n + (test['rc'] - n // scale)
    l = l or layout(rng)
    sub = any(k == 'sub' for k, _ in pages)
    comp = comp or (rng.choice(['RLE', 'RDC']) if sub else rng.choice([None, None, 'RLE', 'RDC']))
    cs = cs or cols(rng, rng.randint(1, 3), ['num8', 'int2', 'chr', 'int1'], plain=True, maxchr=12)
    rs = rows(rng, l, cs, n)
    offs, rl, rs = storage(rng, cs, rs)
    need = (808 if l.bits == 64 else 480) + 64
    big = max([k for _, k in pages] or [0])
    pl = page_length or max(need, l.pbo + 24 + big * (rl + 4 + (l.ptr if sub else 0)))
    fix = [k for kind, k in pages if kind == 'fix']
    first, rest = pages[0], pages[1:]
    mixrows = first[1] if first[0] == 'fix' else rng.choice(fix + [0])
    pla = []
    if first[0] == 'fix':
        pla.append(('lastmix', first[1], rng.choice([MIX, MIX2])))
    elif first[0] == 'sub':
        pla.append(('lastmeta', first[1]))
    for kind, k in rest:
        if kind == 'fix':
            pla.append(('mix', k, rng.choice([MIX, MIX2])) if k == mixrows and k <= rc and rng.random() < .5 else ('data', k))
        elif kind == 'sub':
            pla.append((rng.choice(['meta', 'meta', 'metax']) if pl > 2 * (l.pbo + 24 + k * (rl + 24 + 4 * l.ptr)) else 'meta', k) if k else ('emptymeta',))
        else:
            pla.append(rng.choice([('amd',), ('other', rng.choice([128, 0x4000, 1, 255, 257, 513, 0x9000]), rng.choice([0, 3])), ('emptymeta',)]))
    kw = dict(plan=pla, compression=comp, rng=rng, row_count=max(rc, 0), mixrows=mixrows, extra=False, offs=offs, row_length=rl)
    hl = rng.choice([296 + l.a2, 512, 1024])
    # the rows held by the last metadata page must fit behind its subheaders: enlarge until they do
    for _ in range(20):
        try:
            data = build(l, cs, rs, page_length=pl, header_length=hl, **kw)
            break
        except AssertionError:
            pl += 256
    info = dict(build.info)
    fail = None
    if test['fail']:
        p = info['hl'] + (info['nmeta'] - 1 + test['fail'] - 1) * info['pl']
        fail = p + rng.choice([0, 1, info['pl'] // 2, info['pl'] - 1])
    return data, fail


def abstract_hist(rng, test, scale=1):
    out = []
    for o, n in test['hist']:
        if o in ('rows', 'skip'):
            out.append((o, n * scale + (rng.choice([-1, 0, 0, 0, 1]) if scale > 1 and n else 0)))
        else:
            out.append(o)
        if rng.random() < .1:
            out.append('idx')
    return out


# ------------------------------------------------------------------------------------------------- malformed files
def pages_of(l, data, info):
    return [info['hl'] + k * info['pl'] for k in range(info['npages'])]


def pointers(l, data, p, pl):
    """[(offset of the pointer, offset of the subheader in the page, its length)] of a page"""
    n = int.from_bytes(data[p + l.pbo + 4:p + l.pbo + 6], 'little' if l.little else 'big')
    out = []
    for k in range(min(n, 200)):
        o = p + l.pbo + 8 + k * l.ptr
        if o + l.ptr > len(data):
            break
        u = lambda a: int.from_bytes(data[a:a + l.int], 'little' if l.little else 'big')
        out.append((o, u(o), u(o + l.int)))
    return out


def odd(rng, width, pl):
    """an interesting value for a field of that many bytes"""
    m = (1 << (8 * width)) - 1
    v = rng.choice([0, 1, 2, 3, 7, 8, 16, 24, 255, 256, 4096, 65535, m, m - 1, m >> 1, (m >> 1) + 1, pl, pl - 1, pl + 1, pl // 2, pl - 8, 65536, 65536 + rng.randint(0, pl), 65536 * rng.randint(1, 300), rng.randint(0, 300),
                    rng.randint(0, pl), rng.getrandbits(8 * width)])
    return v & m


def mutate(rng, data, l, info):
    """a copy of the file with one to three fields changed; the kind of the first change"""
    b = bytearray(data)
    hl, pl = info['hl'], info['pl']
    ps = pages_of(l, data, info)
    e = 'little' if l.little else 'big'
    kinds = []

    def setf(o, w, v=None):
        if 0 <= o and o + w <= len(b):
            cur = int.from_bytes(b[o:o + w], e)
            if v is None:
                v = odd(rng, w, pl) if rng.random() < .7 else cur + rng.choice([-8, -4, -2, -1, 1, 2, 4, 8])
            b[o:o + w] = (v & ((1 << (8 * w)) - 1)).to_bytes(w, e)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(['magic', 'hdr', 'len', 'page', 'page', 'ptr', 'ptr', 'ptr', 'ptr', 'sub', 'sub', 'sub', 'sub', 'sub', 'row', 'row', 'row', 'byte', 'noise', 'cut'])
        kinds.append(k)
        if k == 'magic':
            b[rng.randint(0, 31)] ^= 1 << rng.randint(0, 7)
        elif k == 'hdr':
            b[rng.choice([32, 35, 37, 39, 70, rng.randint(32, min(hl, 296) - 1)])] = rng.choice([0, 1, 0x33, 0x22, 255, rng.randint(0, 255)])
        elif k == 'len':
            setf(rng.choice([196, 200, 204]) + l.a1, 4)
        elif k == 'page':
            setf(rng.choice(ps) + l.pbo + rng.choice([0, 2, 4, 4, 6]), 2, rng.choice([None, 0, 256, 512, 640, 1024]))
        elif k in ('ptr', 'sub', 'row'):
            p = rng.choice(ps[:info['nmeta']]) if k == 'sub' or rng.random() < .6 else rng.choice(ps)
            pt = pointers(l, b, p, pl)
            if not pt:
                continue
            o, so, sl = rng.choice(pt)
            if k == 'ptr':
                x = rng.random()
                if x < .4:
                    setf(o, l.int)
                elif x < .8:
                    setf(o + l.int, l.int, rng.choice([None, None, 0, 1, l.int - 1, l.int, l.int + 1, 12, 20, 28, 36, sl + 1, sl - 1, sl + 4]))
                else:
                    b[o + 2 * l.int + rng.randint(0, 1)] = rng.choice([0, 1, 2, 4, 5, 255])
            elif k == 'sub':
                # a field of a metadata subheader
                if p + so + sl <= len(b) and sl > l.int:
                    q = rng.random()
                    f = rng.choice([0, l.int, l.int, 5 * l.int, 6 * l.int, 9 * l.int, 10 * l.int, 15 * l.int, rng.randrange(sl)])
                    if q < .4:
                        setf(p + so + f, l.int, None if f > 0 else int.from_bytes(rng.choice(list(SIG[l.bits].values()))[0], e))
                    elif q < .8:
                        setf(p + so + rng.choice([l.int, 3 * l.int + rng.choice([22, 24, 26, 28, 30, 32]), rng.randrange(0, sl, 2)]), 2)
                    else:
                        setf(p + so + rng.randrange(sl), 1)
            else:
                # bytes of a row or of a compressed stream
                d = p + rng.randrange(pl)
                if so and sl and p + so + sl <= len(b):
                    d = p + so + rng.choice([0, 0, 1, sl - 1, rng.randrange(sl)])
                if d < len(b):
                    b[d] = rng.choice([0, 0x0f, 0x10, 0x1f, 0x20, 0x2f, 0x30, 0x40, 0x4f, 0x50, 0x60, 0x70, 0xc0, 0xf0, 255, rng.randint(0, 255)])
        elif k == 'byte':
            b[rng.randrange(len(b))] = rng.randint(0, 255)
        elif k == 'noise':
            o = rng.randrange(hl, len(b)) if len(b) > hl else 0
            n = rng.choice([4, 16, 100])
            b[o:o + n] = rng.randbytes(min(n, len(b) - o))
        elif k == 'cut' and rng.random() < .4:
            del b[rng.randrange(len(b)):]
            break
    return bytes(b), kinds[0]
