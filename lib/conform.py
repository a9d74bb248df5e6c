"""Runs scripted sessions on the real code and lets TLC decide whether the logged behaviour is one of the specification.

Nothing here judges behaviour: the harness only moves bytes, scripts and events around."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(ROOT, '.build')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def source_hash(dirs, files=()):
    h = hashlib.sha256()
    for d in dirs:
        for base, _, names in sorted(os.walk(d)):
            for n in sorted(names):
                p = os.path.join(base, n)
                if os.path.isfile(p):
                    h.update(p.encode() + b'\0' + open(p, 'rb').read())
    for p in files:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build_driver(mode='plain'):
    """compile the driver together with /repo's current sources"""
    key = source_hash([REPO + '/' + d for d in ('src', 'include', 'apps', 'python', 'R')], [ROOT + '/driver/driver.cpp', ROOT + '/driver/build.sh'])
    out = os.path.join(BUILD, 'drv-' + key)
    exe = os.path.join(out, 'driver-' + mode)
    if not os.path.exists(exe):
        if os.path.isdir(BUILD):
            for d in os.listdir(BUILD):        # keep the disk small: drop drivers of other trees
                if d.startswith('drv-') and d != 'drv-' + key and time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 600:
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(['bash', ROOT + '/driver/build.sh', out, mode], env=dict(os.environ, REPO=REPO),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(exe):
            raise MachineryError('driver does not build:\n' + r.stdout[-4000:])
    return exe


def hx(names):
    return ','.join(n.hex() if n else '-' for n in names)


class Session:
    def __init__(self, batch, tag):
        self.batch, self.tag, self.lines, self.rd, self.extra = batch, tag, [], {}, {}

    def open(self, rid, data, trunc=None, eager=False, fail=None, throw=False, transient=False, file=False, sink='log',
             cells=None, inc=None, exc=None, fk=None, user=None, det=True, frm=None, every=None):
        f = self.batch.file(data)
        o = ['open %d {off} {len}' % rid]
        n = len(data) if trunc is None else min(trunc, len(data))
        d = dict(rid=rid, k='file', f=f + 1, len=n, eager=bool(eager), fail=-1 if fail is None else fail, fk='all', inc=[],
                 exc=[], sink=sink, file=bool(file))
        if trunc is not None:
            o.append('trunc=%d' % trunc)
        if eager:
            o.append('eager=1')
        if fail is not None:
            o.append('fail=%d' % fail)
        if throw:
            o.append('throw=1')
        if transient:
            o.append('transient=1')
        if file:
            o.append('file=1')
        if sink != 'log':
            o.append('sink=' + sink)
        if cells:
            o.append('cells=' + cells)
        if not det:
            o.append('det=0')
        if frm is not None:
            o.append('from=%d' % frm)
        if every is not None:
            o.append('every=%d' % every)
        if user is not None:       # user is None | 'all' | list of names
            d['fk'] = 'all' if user == 'all' else 'user'
            d['inc'] = [] if user == 'all' else [list(x) for x in user]
            o.append('user=' + ('all' if user == 'all' else 'some'))
            o.append('keep=' + ('' if user == 'all' else hx(user)))
        elif inc is not None or exc is not None:
            k = fk or ('both' if inc is not None and exc is not None else 'inc' if inc is not None else 'exc')
            i, e = list(inc or []), list(exc or [])
            d['fk'] = k
            d['inc'], d['exc'] = [list(x) for x in i], [list(x) for x in e]
            o.append('fk=' + k)
            o.append('inc=' + hx(i))
            o.append('exc=' + hx(e))
        self.lines.append((' '.join(o), f))
        self.rd[rid] = d
        return self

    def inside(self, rid, k, n):
        """the last n lines run inside the k-th push_row of rid's sink"""
        self.lines[-n:] = [('^%d:%d %s' % (rid, k, x), f) for x, f in self.lines[-n:]]

    def thread(self, t, n):
        """the last n lines run in thread t"""
        self.lines[-n:] = [('>%d %s' % (t, x), f) for x, f in self.lines[-n:]]

    def default(self, rid):
        self.rd[rid] = dict(rid=rid, k='def', f=0, len=0, eager=False, fail=-1, fk='all', inc=[], exc=[], sink='none', file=False)
        self.lines.append(('def %d' % rid, None))
        return self

    def need(self, rid):
        """a reader id that only receives a moved reader"""
        if rid not in self.rd:
            self.rd[rid] = dict(rid=rid, k='def', f=0, len=0, eager=False, fail=-1, fk='all', inc=[], exc=[], sink='none', file=False)

    def op(self, name, rid, arg=None):
        if name in ('mv', 'ma'):
            self.need(arg)
        self.lines.append(('%s %d%s' % (name, rid, '' if arg is None else ' %d' % arg), None))
        return self

    def ops(self, rid, seq):
        for x in seq:
            if isinstance(x, str):
                self.op(x, rid)
            else:
                self.op(x[0], rid, x[1])
        return self


class Batch:
    module = 'Trace.tla'

    def __init__(self, facets, name='batch'):
        self.facets, self.name, self.cfg = list(facets), name, 'Trace.cfg'
        self.files, self._idx, self.sessions = [], {}, []

    def file(self, data):
        k = hashlib.sha1(data).digest() + len(data).to_bytes(8, 'big')
        if k not in self._idx:
            self._idx[k] = len(self.files)
            self.files.append(bytes(data))
        return self._idx[k]

    def session(self, tag=''):
        s = Session(self, tag)
        self.sessions.append(s)
        return s

    def subset(self, ids):
        b = type(self)(self.facets, self.name)
        b.cfg = self.cfg
        for i in ids:
            s = self.sessions[i]
            t = Session(b, s.tag)
            t.extra = s.extra
            remap = {}
            for line, f in s.lines:
                if f is not None:
                    remap[f] = b.file(self.files[f])
                    t.lines.append((line, remap[f]))
                else:
                    t.lines.append((line, None))
            t.rd = {k: dict(v, f=remap[v['f'] - 1] + 1 if v['f'] else 0) for k, v in s.rd.items()}
            b.sessions.append(t)
        return b


def run_driver(batch, work, mode='plain', timeout=600):
    exe = build_driver(mode)
    if hasattr(batch, 'execute'):
        return batch.execute(exe, work, timeout)
    off, blob = [], os.path.join(work, 'blob')
    with open(blob, 'wb') as f:
        for b in batch.files:
            off.append(f.tell())
            f.write(b)
    script = os.path.join(work, 'script')
    with open(script, 'w') as f:
        for i, s in enumerate(batch.sessions):
            f.write('S %d\n' % i)
            for line, fi in s.lines:
                f.write((line.format(off=off[fi], len=len(batch.files[fi])) if fi is not None else line) + '\n')
            f.write('E\n')
    out = os.path.join(work, 'events')
    tmp = os.path.join(work, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run([exe, blob, script, out, tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode:
        raise MachineryError('driver failed: %d %s' % (r.returncode, r.stderr[-2000:]))
    evs = [[] for _ in batch.sessions]
    with open(out, errors='replace') as f:
        for line in f:
            try:
                e = json.loads(line)
            except ValueError:
                m = re.match(r'\{"s":(\d+)', line)     # a line torn by a crash: the crash event follows
                continue
            evs[e['s']].append(e)
    for i, e in enumerate(evs):
        if not e or e[-1]['e'] not in ('done', 'crash'):
            raise MachineryError('session %d has no end event' % i)
    return evs


def run_tlc(module, cfg, work, env, workers=8, timeout=800, xss='64m', xmx='8g', args=()):
    meta = os.path.join(work, 'tlc')
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss' + xss, '-DTLA-Library=' + SPEC, '-cp', TLA, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *args, module]
    r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(batch, evs, work, workers=8, timeout=1500, cfg=None):
    """returns (list of verdicts (ok, event index, reason) per session, states, transitions)"""
    ff, sf = os.path.join(work, 'files.ndjson'), os.path.join(work, 'sessions.ndjson')
    with open(ff, 'w') as f:
        for b in batch.files or [b'']:
            f.write('{"b":[' + ','.join(map(str, b)) + ']}\n')
    verdict = [None] * len(batch.sessions)
    misfit = set()
    while True:
        with open(sf, 'w') as f:
            for i, (s, ev) in enumerate(zip(batch.sessions, evs)):
                rec = dict(id=i, facets=batch.facets, rd=list(s.rd.values()), ev=[] if i in misfit else ev)
                rec.update({} if hasattr(batch, "execute") else s.extra)
                f.write(json.dumps(rec, separators=(',', ':')) + '\n')
        rc, out = run_tlc(batch.module, cfg or batch.cfg, work, dict(TRACE_FILES=ff, TRACE_SESSIONS=sf), workers, timeout)
        for m in re.finditer(r'<<"(ACCEPT|REJECT)", (\d+), (\d+)(?:, "([^"]*)")?>>', out):
            verdict[int(m.group(2))] = (m.group(1) == 'ACCEPT', int(m.group(3)), m.group(4) or '')
        # an event whose values have another shape than any the specification can compare: the session is none of its behaviours
        st = re.findall(r'^(?:/\\ )?sid = (\d+)', out, re.M)
        ls = re.findall(r'^/\\ l = (\d+)', out, re.M)
        if rc in (75, 76) and st and ls and len(misfit) < 12 and int(st[-1]) - 1 not in misfit:
            i, k = int(st[-1]) - 1, int(ls[-1])
            if k <= len(evs[i]) and evs[i][k - 1]:
                misfit.add(i)
                verdict[i] = (False, k, 'values that cannot be compared')
                continue
        break
    if rc != 0 or any(v is None for v in verdict):
        raise MachineryError('TLC gave no verdict (exit %d)\n%s' % (rc, out[-6000:]))
    g, d = stats(out)
    return verdict, d, g
