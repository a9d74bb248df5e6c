"""Writer of SAS7BDAT byte images with full control over the physical layout.

It only *proposes* inputs: what a file means is decided by the TLA+ specification (spec/SasFile.tla), which
parses the very same bytes.  Everything random comes from the random.Random instance handed in.
"""
import struct, random

MAGIC = bytes([0]*12 + [0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0x00, 0x09, 0xc7,
                        0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11])

META, DATA, MIX, MIX2, AMD = 0, 256, 512, 640, 1024

SIG = {
    64: dict(rowsize=[bytes.fromhex('00000000f7f7f7f7'), bytes.fromhex('f7f7f7f700000000')],
             colsize=[bytes.fromhex('00000000f6f6f6f6'), bytes.fromhex('f6f6f6f600000000')],
             counts=[bytes.fromhex('00fcffffffffffff'), bytes.fromhex('fffffffffffffc00')],
             text=[bytes.fromhex('fdffffffffffffff'), bytes.fromhex('fffffffffffffffd')],
             name=[b'\xff'*8],
             attr=[bytes.fromhex('fcffffffffffffff'), bytes.fromhex('fffffffffffffffc')],
             fmt=[bytes.fromhex('fefbffffffffffff'), bytes.fromhex('fffffffffffffbfe')],
             list=[bytes.fromhex('feffffffffffffff'), bytes.fromhex('fffffffffffffffe')]),
    32: dict(rowsize=[bytes.fromhex('f7f7f7f7')], colsize=[bytes.fromhex('f6f6f6f6')],
             counts=[bytes.fromhex('00fcffff'), bytes.fromhex('fffffc00')],
             text=[bytes.fromhex('fdffffff'), bytes.fromhex('fffffffd')],
             name=[b'\xff'*4],
             attr=[bytes.fromhex('fcffffff'), bytes.fromhex('fffffffc')],
             fmt=[bytes.fromhex('fefbffff'), bytes.fromhex('fffffbfe')],
             list=[bytes.fromhex('feffffff'), bytes.fromhex('fffffffe')]),
}


class L:
    """physical layout: width, endianness, alignment flags"""
    def __init__(self, bits=32, little=True, a1=None, sigvar=None):
        self.bits, self.little = bits, little
        self.a2 = 4 if bits == 64 else 0
        self.a1 = (4 if bits == 64 else 0) if a1 is None else (4 if a1 else 0)
        self.int = bits // 8
        self.pbo = 32 if bits == 64 else 16
        self.e = '<' if little else '>'
        self.sigvar = (0 if little else 1) if sigvar is None else sigvar
        self.ptr = 3 * self.int

    def u16(self, v): return struct.pack(self.e + 'H', v & 0xffff)
    def u32(self, v): return struct.pack(self.e + 'I', v & 0xffffffff)
    def u64(self, v): return struct.pack(self.e + 'Q', v & 0xffffffffffffffff)
    def uint(self, v): return self.u64(v) if self.bits == 64 else self.u32(v)
    def f64(self, v): return struct.pack(self.e + 'd', v)

    def sig(self, kind):
        s = SIG[self.bits][kind]
        # first variant is the little-endian one except for rowsize/colsize, where both orders occur
        if kind in ('rowsize', 'colsize') and self.bits == 64:
            return s[(1 if self.sigvar == 0 else 0)]
        return s[self.sigvar % len(s)]

    def num(self, v, n=8):
        """stored form of a double in n bytes (most significant ones)"""
        b = struct.pack('>d', v)[:n] if isinstance(v, float) else v[:n]
        return b if not self.little else b[::-1]

    def i16(self, v): return struct.pack(self.e + 'h', v)


def put(buf, off, b):
    buf[off:off+len(b)] = b


class Sub:
    """a subheader: bytes, compression byte, type byte"""
    def __init__(self, data, comp=0, typ=0, kind=''):
        self.data, self.comp, self.typ, self.kind, self.need = bytes(data), comp, typ, kind, -1


def sub_rowsize(l, row_length, row_count, p1, p2, mixrows, lcs=0, lcp=0, fill=0):
    n = 808 if l.bits == 64 else 480
    b = bytearray([fill]) * n
    put(b, 0, l.sig('rowsize'))
    for i, v in ((5, row_length), (6, row_count), (9, p1), (10, p2), (15, mixrows)):
        put(b, i*l.int, l.uint(v))
    put(b, 682 if l.bits == 64 else 354, l.u16(lcs))
    put(b, 706 if l.bits == 64 else 378, l.u16(lcp))
    return Sub(b, 0, 0, 'rowsize')


def sub_colsize(l, n):
    return Sub(l.sig('colsize') + l.uint(n) + l.uint(0), 0, 0, 'colsize')


def sub_counts(l, rng=None):
    return Sub(l.sig('counts') + bytes(600 if l.bits == 64 else 304 - 4), 0, rng.choice([0, 0, 1]) if rng else 0, 'counts')


def sub_list(l, n=4):
    return Sub(l.sig('list') + l.u16(8) + bytes(6 + 2*n), 0, 1, 'list')


def sub_text(l, text, pad=0):
    """text: bytes of the block *including* the first two bytes, which hold the block length"""
    b = l.sig('text') + l.u16(len(text)) + text[2:] + bytes(pad)
    return Sub(b, 0, 1, 'text')


def rnd(nz, n):
    """bytes that mean nothing"""
    return nz.randbytes(n) if nz else bytes(n)


def sub_names(l, ents, tail=None, nz=None):
    """ents: list of (text idx, offset, length)"""
    b = l.sig('name') + l.u16(len(ents)*8 + 8) + rnd(nz, 6)
    for i, o, n in ents:
        b += l.u16(i) + l.u16(o) + l.u16(n) + rnd(nz, 2)
    # entries are read while offset <= sub.offset + sub.length - 12 - int
    b += rnd(nz, 12 if tail is None else tail)
    return Sub(b, 0, 1, 'name')


def sub_attrs(l, ents, nz=None):
    """ents: (data offset, length, type byte 1|2)"""
    b = l.sig('attr') + rnd(nz, 8)
    for o, n, t in ents:
        b += l.uint(o) + l.u32(n) + rnd(nz, 2) + bytes([t]) + rnd(nz, 1)
    b += rnd(nz, 12)
    return Sub(b, 0, 1, 'attr')


def sub_fmt(l, fmt, lab, fill=0, kind='fmt', nz=None):
    """fmt, lab: (idx, off, len)"""
    b = bytearray(rnd(nz, 3*l.int + 40) if nz else bytes([fill]) * (3*l.int + 40))
    put(b, 0, l.sig('fmt'))
    o = 3*l.int
    for k, v in zip((22, 24, 26, 28, 30, 32), tuple(fmt) + tuple(lab)):
        put(b, o+k, l.u16(v))
    return Sub(b, 0, 0, kind)


class TextPool:
    """Places strings in text blocks.  Block 0 starts with the compression/creator preamble."""
    def __init__(self, l, compression=None, creator=b'', creator_proc=b'DATASTEP', maxblock=32000, gap=0, share=False):
        self.l, self.gap, self.maxblock, self.share = l, gap, maxblock, share
        pre = bytearray(12)
        comp = {None: b' '*8, 'RLE': b'SASYZCRL', 'RDC': b'SASYZCR2'}[compression]
        self.lcs, self.lcp = 0, 0
        if compression is None:
            if creator:
                pre += creator
                self.lcs, self.lcp = len(creator), 0
            else:
                pre += comp + bytes(8) + creator_proc
                self.lcp = len(creator_proc)
        elif compression == 'RLE':
            pre += comp + bytes(16) + creator_proc
            self.lcp = len(creator_proc)
        else:
            pre += comp + bytes(8)
            self.lcs, self.lcp = 8, len(creator_proc)
        while len(pre) % 4:
            pre += b'\0'
        self.blocks = [pre]
        self.seen = {}

    def new_block(self):
        self.blocks.append(bytearray(4))

    def add(self, s, block=None, lead=b''):
        """returns (idx, off, len)"""
        if self.share and s in self.seen:
            return self.seen[s]
        i = len(self.blocks)-1 if block is None else block
        if len(self.blocks[i]) + len(s) + len(lead) + self.gap > self.maxblock and block is None:
            self.new_block()
            i += 1
        b = self.blocks[i]
        b += lead
        o = len(b)
        b += s
        b += b'\0' * ((-len(b)) % 4 + self.gap)
        self.seen[s] = (i, o, len(s))
        return (i, o, len(s))

    def subs(self):
        out = []
        for b in self.blocks:
            b = bytes(b) + b'\0' * ((-len(b)) % 4)
            out.append(sub_text(self.l, b))
        return out


def header(l, page_length, page_count, header_length=1024, platform=b'1', enc=20, name=b'DATA', ftype=b'DATA',
           created=0.0, modified=0.0, release=b'9.0401M3', server=b'X64_SRV', ostype=b'Linux', osmaker=b'',
           osname=b'x86_64', fill=0, a2byte=None, a1byte=None, bigbyte=0):
    b = bytearray([fill]) * max(header_length, 296)
    put(b, 0, MAGIC)
    b[32] = (0x33 if l.a2 else 0x22) if a2byte is None else a2byte
    b[35] = (0x33 if l.a1 else 0x22) if a1byte is None else a1byte
    b[37] = 1 if l.little else bigbyte
    b[39] = platform[0] if isinstance(platform, (bytes, bytearray)) else platform
    b[70] = enc
    put(b, 84, b'SAS FILE')
    put(b, 92, name.ljust(64))
    put(b, 156, ftype.ljust(8))
    a1, t = l.a1, l.a1 + l.a2
    put(b, 164+a1, created if isinstance(created, bytes) else l.f64(created))
    put(b, 172+a1, modified if isinstance(modified, bytes) else l.f64(modified))
    put(b, 196+a1, l.u32(header_length))
    put(b, 200+a1, l.u32(page_length))
    put(b, 204+a1, l.u32(page_count))
    put(b, 216+t, release.ljust(8, b'\0'))
    put(b, 224+t, server.ljust(16, b'\0'))
    put(b, 240+t, ostype.ljust(16, b'\0'))
    put(b, 256+t, osmaker.ljust(16, b'\0'))
    put(b, 272+t, osname.ljust(16, b'\0'))
    return bytes(b[:header_length]) if header_length < 296 else bytes(b)


def page(l, page_length, ptype, subs=(), rows=(), block_count=None, rng=None, fill=0, nsub=None, row_pad=None):
    """Rows follow the subheader pointers (mix) or the page header (data); subheader bodies are stacked from the end."""
    b = bytearray([fill]) * page_length
    noisy = rng is not None and rng.random() < .5      # fields that mean nothing on this page take any value
    if noisy:
        b = bytearray(rng.randbytes(page_length))
    put(b, l.pbo, l.u16(ptype))
    n = len(subs) if nsub is None else nsub
    if block_count is None:
        block_count = len(rows) + len(subs)
        if ptype == DATA:
            block_count = len(rows)
            if noisy and not n:
                n = rng.choice([0, 0, 1, 2, 3, 0x8000, 0xffff])
        elif noisy:
            block_count = rng.choice([0, 1, len(rows), block_count, 0x8000, 0xffff])
    put(b, l.pbo+2, l.u16(block_count))
    put(b, l.pbo+4, l.u16(n))
    put(b, l.pbo+6, l.u16(rng.randrange(65536) if noisy else 0))
    end = page_length
    o = l.pbo + 8
    for s in subs:
        end -= len(s.data)
        if s.kind != 'row':
            end -= end % 4
        assert end >= o, 'page too small for its subheaders'
        put(b, end, s.data)
        put(b, o, l.uint(end) + l.uint(len(s.data)) + bytes([s.comp, s.typ]) + bytes(l.int - 2))
        o += l.ptr
    if rows:
        o = l.pbo + 8
        if ptype != DATA:
            o += n*l.ptr
            o += o % 8
        for r in rows:
            assert o + len(r) <= end, 'page too small for its rows'
            put(b, o, r)
            o += len(r)
    return bytes(b)


def rowsub(data, comp=4):
    return Sub(data, comp, 1, 'row')


# ---------------------------------------------------------------- columns and whole files

class Col:
    def __init__(self, name, length=8, typ='num', fmt=b'', label=b''):
        self.name = name if isinstance(name, bytes) else name.encode()
        self.fmt = fmt if isinstance(fmt, bytes) else fmt.encode()
        self.label = label if isinstance(label, bytes) else label.encode()
        self.length, self.typ = length, typ    # typ: num | chr


def offsets(cols):
    o, out = 0, []
    for c in cols:
        out.append(o)
        o += c.length
    return out, o


def meta_subs(l, cols, row_count, row_length=None, mixrows=0, compression=None, creator=b'', creator_proc=b'DATASTEP',
              offs=None, names_per_sub=1000, attrs_per_sub=1000, maxblock=32000, extra=True, p1=None, lcs=None,
              lcp=None, share_text=False, textgap=0, rng=None, column_count=None, refs=None):
    """The metadata subheaders of a dataset, in the order a SAS writer uses."""
    if offs is None:
        offs, rl = offsets(cols)
    else:
        rl = row_length
    if row_length is None:
        row_length = rl
    tp = TextPool(l, compression, creator, creator_proc, maxblock=maxblock, gap=textgap, share=share_text)
    nents, fents = [], []
    for c in cols:
        nents.append(tp.add(c.name))
        f = tp.add(c.fmt) if c.fmt else (0, 0, 0)
        lab = tp.add(c.label) if c.label else (0, 0, 0)
        fents.append((f, lab))
    n = len(cols)
    if refs:                                   # references altered: refs(texts, (index, offset, length)) -> another one
        ts = [x.data[l.int:] for x in tp.subs()]
        nents = [refs(ts, e) for e in nents]
        fents = [(refs(ts, f), refs(ts, lab)) for f, lab in fents]
    p1 = n if p1 is None else p1
    nz = rng if rng and rng.random() < .3 else None
    out = [sub_rowsize(l, row_length, row_count, p1, n - p1, mixrows, tp.lcs if lcs is None else lcs,
                       tp.lcp if lcp is None else lcp),
           sub_colsize(l, n if column_count is None else column_count)]
    if extra:
        out.append(sub_counts(l, rng))
    out += tp.subs()
    for i in range(0, n, names_per_sub):
        out.append(sub_names(l, nents[i:i+names_per_sub], nz=nz))
        out[-1].need = min(max(e[0] for e in nents[i:i+names_per_sub]), len(tp.subs()) - 1)
    for i in range(0, n, attrs_per_sub):
        out.append(sub_attrs(l, [(offs[j], cols[j].length, getattr(cols[j], 'code', 1 if cols[j].typ == 'num' else 2))
                                 for j in range(i, min(n, i+attrs_per_sub))], nz))
    if extra:
        out.append(sub_list(l, n))
    for f, lab in fents:
        out.append(sub_fmt(l, f, lab, nz=nz))
        out[-1].need = min(max(f[0], lab[0]), len(tp.subs()) - 1)
    return out, row_length


def shuffled(subs, rng):
    """the subheaders in another legal order: the row size before the first text, each kind in its own order, texts before
    the names and formats that refer to them"""
    lanes = {}
    for s in subs:
        lanes.setdefault({'rowsize': 'text'}.get(s.kind, s.kind), []).append(s)
    out, texts = [], 0
    while any(lanes.values()):
        k = rng.choice([k for k, v in lanes.items() if v and v[0].need < texts])
        s = lanes[k].pop(0)
        texts += s.kind == 'text'
        out.append(s)
    return out


def subs_size(l, subs):
    return l.pbo + 8 + sum(l.ptr + len(s.data) + 4 for s in subs)


def split_pages(l, subs, page_length, rng=None, spread=None):
    """distribution of subheaders over metadata pages: greedy, or at most `spread` per page, at random"""
    pages, cur, used = [], [], l.pbo + 8
    for s in subs:
        need = l.ptr + len(s.data) + 4
        if cur and (used + need > page_length or (spread and (len(cur) >= spread or rng.random() < .2))):
            pages.append(cur)
            cur, used = [], l.pbo + 8
        cur.append(s)
        used += need
    if cur:
        pages.append(cur)
    return pages


# ---------------------------------------------------------------- compressors (randomised choice of commands)

def rle_cmds(row, rng):
    """a random RLE command sequence denoting row"""
    out, i, n = bytearray(), 0, len(row)
    while i < n:
        c = row[i]
        run = 1
        while i + run < n and row[i+run] == c and run < 5000:
            run += 1
        if run >= 2 and rng.random() < 0.85:
            k = run if rng.random() < 0.6 else rng.randint(2, run)
            opts = []
            if c in (0x40, 0x20, 0x00):
                hi = {0x40: 0x5, 0x20: 0x6, 0x00: 0x7}[c]
                lo = {0x40: 0xD, 0x20: 0xE, 0x00: 0xF}[c]
                if 2 <= k <= 17:
                    opts.append(bytes([lo << 4 | (k-2)]))
                if 17 <= k <= 17+4095:
                    opts.append(bytes([hi << 4 | (k-17) >> 8, (k-17) & 255]))
            if 3 <= k <= 18:
                opts.append(bytes([0xC << 4 | (k-3), c]))
            if 18 <= k <= 18+4095:
                opts.append(bytes([0x4 << 4 | (k-18) >> 8, (k-18) & 255, c]) if False else
                            (bytes([0x4 << 4 | (k-18) >> 4 & 15, 0, c]) if False else b''))
                opts.pop()
            if 18 <= k <= 18 + 15*16 + 255:
                # n = nibble*16 + byte + 18: many encodings of the same length
                m = k - 18
                nib = rng.randint(max(0, (m-255+15)//16), min(15, m//16))
                opts.append(bytes([0x4 << 4 | nib, m - nib*16, c]))
            if opts:
                out += rng.choice(opts)
                i += k
                continue
        # literals
        m = min(n-i, rng.choice([1, 2, 5, 16, 17, 20, 32, 33, 48, 49, 64, 65, 80, 200, 400, 5000]))
        # optionally stop at next run
        if rng.random() < 0.7:
            j = 1
            while j < m and not (i+j+2 < n and row[i+j] == row[i+j+1] == row[i+j+2]):
                j += 1
            m = j
        if m >= 64 and m <= 64+4095:
            out += bytes([(m-64) >> 8, (m-64) & 255])
        elif m >= 49:
            m = min(m, 64)
            out.append(0xB0 | (m-49))
        elif m >= 33:
            out.append(0xA0 | (m-33))
        elif m >= 17:
            out.append(0x90 | (m-17))
        else:
            out.append(0x80 | (m-1))
        if m > 64+4095:
            raise AssertionError
        out += row[i:i+m]
        i += m
    return bytes(out)


def rdc_cmds(row, rng, overlap=True, tail=False):
    """a random RDC item sequence denoting row: returns stream bytes"""
    items, i, n = [], 0, len(row)
    while i < n:
        c = row[i]
        run = 1
        while i + run < n and row[i+run] == c and run < 4114:
            run += 1
        opts = []
        if run >= 3 and rng.random() < 0.8:
            k = run if rng.random() < 0.6 else rng.randint(3, run)
            if k <= 18:
                opts.append((True, bytes([k-3, c]), k))
            if 19 <= k <= 19+4095:
                opts.append((True, bytes([0x10 | (k-19) & 15, (k-19) >> 4, c]), k))
        if i >= 3 and rng.random() < 0.6:
            for _ in range(6):
                ofs = rng.randint(3, min(i, 3+4095))
                k = 0
                while i+k < n and row[i+k] == row[i+k-ofs] and k < 271 and (overlap or k < ofs):
                    k += 1
                if k >= 3:
                    if 3 <= k <= 15:
                        opts.append((True, bytes([k << 4 | (ofs-3) & 15, (ofs-3) >> 4]), k))
                    elif k >= 16:
                        opts.append((True, bytes([0x20 | (ofs-3) & 15, (ofs-3) >> 4, k-16]), k))
                    break
        if opts:
            o = rng.choice(opts)
            items.append(o[:2])
            i += o[2]
        else:
            items.append((False, bytes([c])))
            i += 1
    return rdc_pack(items, tail)


def rdc_pack(items, tail=False):
    """items: (is command, bytes).  Unless tail, the stream is padded so that its last item does not start within the last
    two bytes (see the known finding of D02)"""
    out = bytearray()
    for g in range(0, len(items), 16):
        ctrl = 0
        body = b''
        for k, (f, b) in enumerate(items[g:g+16]):
            if f:
                ctrl |= 0x8000 >> k
            body += b
        out += struct.pack('>H', ctrl) + body
    if items and not tail:
        out += bytes(max(0, 3 - len(items[-1][1])))
    return bytes(out)


# ---------------------------------------------------------------- a complete file from rows

def meta_room(l, page_length, subs, slack=0):
    """bytes left between the pointers and the bodies of these subheaders"""
    end = page_length
    for s in subs:
        end -= len(s.data)
        if s.kind != 'row':
            end -= end % 4
    return end - (l.pbo + 8 + len(subs) * l.ptr) - slack


def storage(rng, cs, rs, prob=.35, gaps=True):
    """where the columns lie within a row: (offsets, row length, rows) — in order and contiguous, or in another order, with gaps"""
    offs, o = [], 0
    for c in cs:
        offs.append(o)
        o += c.length
    if rng.random() >= prob or any(len(r) != o for r in rs):
        return offs, o, rs
    order = list(range(len(cs)))
    if rng.random() < .7:
        rng.shuffle(order)
    if rng.random() < .4:                      # as SAS does: the numbers first
        order.sort(key=lambda i: cs[i].typ != 'num')
    gaps = gaps and rng.random() < .5
    new, p = [0] * len(cs), rng.choice([0, 0, 1, 8]) if gaps else 0
    for i in order:
        new[i] = p
        p += cs[i].length + (rng.choice([0, 0, 1, 3]) if gaps else 0)
    rl = p + (-p % 8 if gaps and rng.random() < .5 else 0)
    out = []
    for r in rs:
        b = bytearray(rng.choice([bytes(rl), rng.randbytes(rl)]))
        for i, c in enumerate(cs):
            b[new[i]:new[i] + c.length] = r[offs[i]:offs[i] + c.length]
        out.append(bytes(b))
    return new, rl, out


def build(l, cols, rows, page_length=4096, header_length=1024, plan=None, compression=None, row_count=None,
          mixrows=None, rng=None, offs=None, row_length=None, hdr=None, subs=None, encode=None, shuffle=False, spread=None, amd=0.0, junk=0.0, join=0.0, noise=True, **mk):
    """plan: list of page items after the metadata, see below; None = a sensible default.
    ('data', n) ('mix', n [,type]) ('meta', n) ('amd',) ('other', type) ('emptymeta',)
    n rows are taken from rows in order.  The first 'mix' or 'meta' (compressed) item shares the last metadata page
    when prefixed: ('lastmeta', n) appends n row subheaders to the last metadata page; ('lastmix', n) turns it into a mix page."""
    rng = rng or random.Random(0)
    if row_count is None:
        row_count = len(rows)
    if offs is None and row_length is None and subs is None:
        offs, row_length, rows = storage(rng, cols, rows, .2, gaps=False)
    plan = list(plan) if plan is not None else None
    if plan is None:
        plan = default_plan(l, rows, page_length, compression)
    if mixrows is None:
        mixrows = max([p[1] for p in plan if p[0] in ('mix', 'lastmix')] or [0])
    if subs is None:
        subs, row_length = meta_subs(l, cols, row_count, row_length, mixrows, compression, offs=offs, rng=rng, **mk)
    if encode is None:
        encode = default_encode(compression, rng)
    it = iter(rows)
    pages = []
    nz = rng if noise else None
    take = lambda n: [next(it) for _ in range(n)]
    if shuffle:
        subs = shuffled(subs, rng)
    page_length = max([page_length] + [l.pbo + 16 + l.ptr + len(x.data) for x in subs])
    mpages = split_pages(l, subs, page_length, rng, spread)
    if join and plan and rng.random() < join:          # the first rows share the last page of the metadata, if they fit
        n, ms = plan[0][1] if plan[0][0] in ('mix', 'meta') else 0, mpages[-1]
        if plan[0][0] == 'mix' and meta_room(l, page_length, ms, 7) >= n * row_length:
            plan[0] = ('lastmix',) + plan[0][1:]
        elif plan[0][0] == 'meta' and meta_room(l, page_length, ms, 3) >= n * (row_length + l.ptr + 4):
            plan[0] = ('lastmeta', n)
    for k, ms in enumerate(mpages):
        last = k == len(mpages)-1
        if last and plan and plan[0][0] == 'lastmix':
            _, n, *t = plan.pop(0)
            pages.append(page(l, page_length, t[0] if t else MIX, ms, take(n), rng=nz))
        elif last and plan and plan[0][0] == 'lastmeta':
            _, n = plan.pop(0)
            pages.append(page(l, page_length, META, list(ms) + [encode(r) for r in take(n)], rng=nz))
        else:
            if junk and rng.random() < junk:      # subheaders without meaning among the others
                ms = list(ms)
                size = l.pbo + 8 + sum(l.ptr + len(x.data) + 4 for x in ms)
                for js in (Sub(b'', 0, 0, 'row'), Sub(b'\x33' * 16, 1, 1, 'x'), Sub(b'\x44' * 20, 0, 0, 'x')):
                    size += l.ptr + len(js.data) + 4
                    if size <= page_length and rng.random() < .5:
                        ms.insert(rng.randint(0, len(ms)), js)
            pages.append(page(l, page_length, AMD if amd and rng.random() < amd else META, ms, rng=nz))
            if junk and rng.random() < junk:
                pages.append(page(l, page_length, rng.choice([META, AMD, 128, 0x4000, 2]), ()))
    nmeta = len(pages)
    for p in plan:
        if p[0] == 'data':
            pages.append(page(l, page_length, DATA, (), take(p[1]), rng=nz))
        elif p[0] == 'mix':
            ss = [Sub(b'\x55' * 8, 0, 0, 'x') for _ in range(rng.randint(0, 3) if join else 0)]
            if meta_room(l, page_length, ss, 7) < p[1] * row_length:
                ss = []
            pages.append(page(l, page_length, p[2] if len(p) > 2 else MIX, ss, take(p[1]), rng=nz))
        elif p[0] == 'meta':
            pages.append(page(l, page_length, META, [encode(r) for r in take(p[1])], rng=nz))
        elif p[0] == 'metax':   # rows mixed with ignorable subheaders
            ss = []
            for r in take(p[1]):
                if rng.random() < .5:
                    ss.append(Sub(b'\x11'*24, 1, 1, 'x'))
                if rng.random() < .3:
                    ss.append(Sub(b'', 0, 0, 'row'))
                ss.append(encode(r))
            ss.append(Sub(b'\x22'*24, 0, 0, 'x'))
            pages.append(page(l, page_length, META, ss, rng=nz))
        elif p[0] == 'emptymeta':
            pages.append(page(l, page_length, META, (), rng=nz))
        elif p[0] == 'amd':
            pages.append(page(l, page_length, AMD, (), rng=nz))
        elif p[0] == 'other':
            pages.append(page(l, page_length, p[1], (), block_count=p[2] if len(p) > 2 else 0))
        elif p[0] == 'raw':
            pages.append(p[1])
        else:
            raise ValueError(p)
    h = header(l, page_length, len(pages), header_length, **(hdr or {}))
    build.info = dict(nmeta=nmeta, hl=len(h), pl=page_length, npages=len(pages))
    return h + b''.join(pages)


def default_encode(compression, rng):
    def enc(r):
        if compression == 'RLE':
            c = rle_cmds(r, rng)
        elif compression == 'RDC':
            c = rdc_cmds(r, rng)
        else:
            return rowsub(r, 0)
        if len(c) >= len(r):
            return rowsub(r, rng.choice([0, 4]) if not any(r.startswith(s) for d in SIG[32].values() for s in d) else 4)
        return rowsub(c, 4)
    return enc


def default_plan(l, rows, page_length, compression):
    if not rows:
        return []
    rl = len(rows[0])
    per = max(1, (page_length - l.pbo - 8 - 8) // max(1, rl)) if not compression else \
        max(1, (page_length - l.pbo - 8) // (rl + l.ptr + 4))
    out, n = [], len(rows)
    while n:
        k = min(per, n)
        out.append(('meta' if compression else 'data', k))
        n -= k
    return out
