"""Sessions of the Python and R bindings."""
import copy, json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from conform import Batch, MachineryError, ROOT


class BindBatch(Batch):
    """one session = one reader made from Python or R.  lines: ('file', index); extra: what the driver is told"""
    module = 'TraceBind.tla'
    lang = 'py'

    def __init__(self, facets=(), name='bind'):
        super().__init__(facets, name)
        self.cfg = 'TraceBind.cfg'

    def run(self, tag, data, kind, ops, size=0, bundled=False, quiet=False, readsas=False, bad='', bad_value=0, boom=-1, inc=None,
            exc=None, trunc=None, total=0):
        s = self.session(tag)
        f = self.file(data if trunc is None else data[:trunc])
        s.lines.append(('file', f))
        grid = int(self.lang == 'r' and bundled and kind == 'row')
        s.rd[1] = dict(rid=1, k='file', f=f + 1, len=len(self.files[f]), eager=False, fail=-1, fk='both' if inc or exc else 'all', inc=inc or [], exc=exc or [],
                       sink=kind, file=True, size=size, quiet=int(quiet), bad=bad, boom=boom, lang=self.lang, grid=grid)
        s.extra = dict(kind=kind, size=size, bundled=bundled, quiet=quiet, readsas=readsas, bad=bad, bad_value=bad_value, boom=boom,
                       inc=inc, exc=exc, ops=ops, total=total)
        return s

    def subset(self, ids):
        b = super().subset(ids)
        b.lang = self.lang
        return b

    def command(self, exe, plan, out):
        return ['/usr/bin/python3', ROOT + '/driver/driver.py', exe, plan, out]

    def execute(self, exe, work, timeout):
        base = os.path.join(work, 'runs')
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        for i, b in enumerate(self.files):
            with open(os.path.join(base, 'f%d.sas7bdat' % i), 'wb') as f:
                f.write(b)
        nj = 8
        todo = [[i for i in range(len(self.sessions)) if i % nj == j] for j in range(nj)]
        evs = [[] for _ in self.sessions]

        def job(j):
            left, turn = todo[j], 0
            while left:
                plan, out = os.path.join(base, 'plan%d_%d' % (j, turn)), os.path.join(base, 'out%d_%d' % (j, turn))
                with open(plan, 'w') as f:
                    for i in left:
                        s = self.sessions[i]
                        f.write(self.plan_line(dict(s.extra, i=i, file=os.path.join(base, 'f%d.sas7bdat' % s.lines[0][1]))) + '\n')
                open(out, 'w').close()
                env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LD_LIBRARY_PATH', 'HOME', 'LANG', 'TMPDIR')}
                r = subprocess.run(self.command(exe, plan, out), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=timeout, env=dict(env, PYTHONDONTWRITEBYTECODE='1', PYTHONMALLOC='malloc', MALLOC_PERTURB_='165'), cwd=base)
                done = set()
                for line in open(out, errors='replace'):
                    try:
                        e = json.loads(line)
                    except ValueError:
                        continue
                    evs[e['s']].append(e)
                    if e['e'] in ('done', 'crash'):
                        done.add(e['s'])
                rest = [i for i in left if i not in done]
                if rest and r.returncode == 0:
                    raise MachineryError('the driver left sessions out: %r\n%s' % (rest[:5], r.stdout[-2000:]))
                if rest:            # the process died in the first of the sessions it did not finish
                    if not evs[rest[0]] and len(rest) == len(left) and b'rror' in r.stdout and r.returncode > 0:
                        raise MachineryError('the driver does not start: ' + r.stdout[-2000:].decode(errors='replace'))
                    evs[rest[0]].append(dict(e='crash', why='exit %d' % r.returncode))
                    rest = rest[1:]
                left, turn = rest, turn + 1

        with ThreadPoolExecutor(nj) as ex:
            list(ex.map(job, range(nj)))
        shutil.rmtree(base, ignore_errors=True)
        return evs

    def plan_line(self, x):
        return json.dumps(x)

    def corrupt(self, kind, ev, rng, facets):
        ev = copy.deepcopy(ev)
        at = lambda f: [i for i, e in enumerate(ev) if f(e)]
        outs = at(lambda e: e['e'] in ('push', 'chunk', 'data'))
        kept = at(lambda e: e['e'] == 'kept')
        boom = at(lambda e: e['e'] == 'exc')
        if boom or any(x is not None for e in ev for x in [e.get('cols')] if x and len({str(c['name']) for c in x}) < len(x)):
            return None         # columns of one name: which of them a named table shows is open

        def pick():
            i = rng.choice(outs)
            return i, ev[kept[0]]['outs'][outs.index(i)]

        if kind == 'ret':
            c = at(lambda e: e['e'] == 'ret' and e['op'] in ('row', 'rows', 'skip'))
            if not c:
                return None
            ev[rng.choice(c)]['v'] ^= 1
            return ev
        if kind == 'props':
            c = at(lambda e: 'props' in e)
            if not c:
                return None
            p = ev[rng.choice(c)]['props']
            k = rng.choice(['dataset', 'hlen', 'endian', 'platform', 'rowcount', 'ncols', 'compression', 'proc', 'mixrows'])
            if isinstance(p[k], str):
                p[k] += 'x'
            elif len(p[k]) == 4 and k not in ('dataset', 'proc'):
                p[k][3] ^= 1
            else:
                p[k] = p[k] + [120]
            return ev
        if kind == 'colname':
            c = at(lambda e: e.get('cols'))
            if not c:
                return None
            q = rng.choice(ev[rng.choice(c)]['cols'])
            k = rng.choice(['name', 'label', 'format', 'type'])
            q[k] = 'string' if k == 'type' and q[k] != 'string' else 'number' if k == 'type' else q[k] + [120]
            return ev
        if kind == 'df':
            # a table that shows rows, after the end of a run: nothing is held back then
            c = [i for i in at(lambda e: e['e'] == 'df') if any(y != [-1] for x in ev[i]['c'] for y in x['v'])
                 and [e['op'] for e in ev[:i] if e['e'] == 'ret' and e['op'] not in ('df', 'flush')][-1:] in (['all'], ['eod'])]
            if not c:
                return None
            rng.choice([x for x in ev[rng.choice(c)]['c'] if x['v']])['v'].pop()
            return ev
        if not outs or not kept:
            return None
        if kind == 'drop':
            # whole data that is told again is as good as not told again
            told = [i for i in outs if ev[i]['e'] == 'data'][1:]
            i = rng.choice([i for i in outs if i not in told])
            del ev[kept[0]]['outs'][outs.index(i)]
            del ev[i]
        elif kind == 'dup':
            i, k = pick()
            ev[kept[0]]['outs'].insert(outs.index(i), copy.deepcopy(k))
            ev.insert(i, copy.deepcopy(ev[i]))
        elif kind == 'alias':
            i, k = pick()
            cells = [x for x in (k if ev[i]['e'] == 'push' else [x for q in k for x in q['v']]) if x]
            if not cells:
                return None
            x = rng.choice(cells)
            x[rng.randrange(len(x))] += 1
        elif kind == 'cellval':
            i, k = pick()
            a = ev[i]['c'] if ev[i]['e'] == 'push' else [x for q in ev[i]['c'] for x in q['v']]
            b = k if ev[i]['e'] == 'push' else [x for q in k for x in q['v']]
            c = [j for j, x in enumerate(a) if len(x) == 8 and not (x[0] & 127 == 127 and x[1] >= 240)]
            if not c:
                return None
            j = rng.choice(c)
            n = rng.randrange(8)
            a[j][n] ^= 1
            b[j][n] ^= 1
        elif kind == 'span':
            c = [i for i in outs if 'a' in ev[i] or ev[i].get('idx')]
            if not c:
                return None
            e = ev[rng.choice(c)]
            if 'a' in e:
                e[rng.choice(['a', 'b'])] += 1
            else:
                e['idx'][rng.randrange(len(e['idx']))] += 1
        return ev


class RBatch(BindBatch):
    lang = 'r'

    def command(self, exe, plan, out):
        return ['bash', '-c', 'ulimit -v 6000000; exec Rscript --vanilla "$@"', 'r', ROOT + '/driver/driver.R', exe, plan, out]

    def plan_line(self, x):
        x = dict(x, ops=[o if isinstance(o, list) else [o] for o in x['ops']], bad=x['bad'] or 'no')
        return json.dumps({k: v for k, v in x.items() if v is not None})
