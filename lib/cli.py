"""Runs of the command line tool in scratch directories: what was there before, what it printed, what is there afterwards."""
import copy, os, shutil, signal, subprocess
from concurrent.futures import ThreadPoolExecutor
from conform import Batch, MachineryError


class CliBatch(Batch):
    """one session = one run.  lines: ('node', file) per node; extra: names [(path, node, 'file'|'sym'|'hard')], op, argv"""
    module = 'TraceCli.tla'

    def __init__(self, facets=(), name='cli'):
        super().__init__(facets, name)
        self.cfg = 'TraceCli.cfg'

    def run(self, tag, nodes, names, op, args, nlines=None, absolute=(), prefix=(), full=False):
        """nodes: contents; names: (path, node index, kind), kind 'file' | 'sym' | 'hard' | 'dir' | 'full' (a link
        to /dev/full); args: paths; absolute / prefix: which args are given in full / with ./"""
        s = self.session(tag)
        for data in nodes:
            s.lines.append(('node', self.file(data)))
        s.extra = dict(names=[list(x) for x in names], op=op, args=list(args), nlines=nlines, absolute=list(absolute), prefix=list(prefix), full=full)
        return s

    def one(self, exe, base, i):
        s = self.sessions[i]
        x = s.extra
        root = os.path.join(base, 's%d' % i)
        os.makedirs(root)
        try:
            first = {}
            for p, n, kind in x['names']:
                full = os.path.join(root, p)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if kind == 'dir':
                    os.mkdir(full)
                elif kind == 'full':
                    os.symlink('/dev/full', full)
                elif n not in first:
                    with open(full, 'wb') as f:
                        f.write(self.files[s.lines[n][1]])
                    first[n] = full
                elif kind == 'hard':
                    os.link(first[n], full)
                else:
                    os.symlink(os.path.relpath(first[n], os.path.dirname(full)), full)
            argv = [exe, x['op']]
            if x['nlines'] is not None:
                argv += ['--nlines=%s' % x['nlines']]
            for k, a in enumerate(x['args']):
                argv.append(os.path.join(root, a) if k in x['absolute'] else './' + a if k in x['prefix'] else a)
            with open('/dev/full', 'wb') as full:
                r = subprocess.run(argv, cwd=root, stdin=subprocess.DEVNULL, stdout=full if x['full'] else subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60,
                                   env={k: v for k, v in os.environ.items() if k in ('PATH', 'LD_LIBRARY_PATH', 'HOME')})
            odd = [k + 1 for _, k, kd in x['names'] if kd in ('dir', 'full')]
            ino, names1, node1 = {}, [], []

            def special(p, kind):
                q = os.path.relpath(p, root)
                for name, k, kd in x['names']:
                    if name == q and kd == kind:
                        node1.append(dict(same=k + 1, b=[]))
                        ino[p] = len(ino) + 1
                        names1.append(dict(p=list(q.encode()), i=ino[p]))

            for d, subdirs, fs in os.walk(root):
                subdirs.sort()
                for f in subdirs:
                    special(os.path.join(d, f), 'dir')
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    if os.path.islink(p) and os.readlink(p) == '/dev/full':
                        special(p, 'full')
                        continue
                    st = os.stat(p)
                    if st.st_ino not in ino:
                        ino[st.st_ino] = len(ino) + 1
                        data = open(p, 'rb').read()
                        same = [k for k, (_, fi) in enumerate(s.lines) if self.files[fi] == data and (k + 1) not in odd]
                        node1.append(dict(same=same[0] + 1 if same else 0, b=[] if same else list(data)))
                    names1.append(dict(p=list(os.path.relpath(p, root).encode()), i=ino[st.st_ino]))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        n = x['nlines']
        try:
            num, nok = (-1 if n is None else int(n)), 1
        except ValueError:
            num, nok = 0, 0
        kinds = {k: kd for _, k, kd in x['names'] if kd in ('dir', 'full')}
        e = dict(e='run', op=x['op'], n=min(num, 10**9), nok=nok, args=[list(a.encode()) for a in x['args']],
                 full=int(x['full']), names0=[dict(p=list(p.encode()), i=k + 1) for p, k, _ in x['names']],
                 node0=[{'dir': -1, 'full': -2}.get(kinds.get(k), fi + 1) for k, (_, fi) in enumerate(s.lines)],
                 out=list(r.stdout or b''), rc=r.returncode, names1=names1, node1=node1)
        return [e, dict(e='done')]

    def execute(self, exe, work, timeout):
        base = os.path.join(work, 'runs')
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda i: self.one(exe, base, i), range(len(self.sessions))))

    def corrupt(self, kind, ev, rng, facets):
        ev = copy.deepcopy(ev)
        e = ev[0]
        if kind == 'out':
            if e['full'] or e['rc'] != 0 or len(e['out']) < 4:
                return None
            k = rng.randrange(len(e['out']) - 1)
            e['out'][k:k] = [10, 10]
        elif kind == 'status':
            e['rc'] = 1 if e['rc'] == 0 else 0
        elif kind == 'input':
            ins = [n['i'] for n in e['names1'] if n['p'] in e['args']]
            if not ins:
                return None
            n = e['node1'][rng.choice(ins) - 1]
            n['same'], n['b'] = 0, [1, 2, 3]
        elif kind == 'gone':
            if not e['names1'] or e['rc'] != 0:
                return None
            del e['names1'][rng.randrange(len(e['names1']))]
        elif kind == 'content':
            c = [n for n in e['node1'] if not n['same'] and len(n['b']) > 4]
            if not c or e['rc'] != 0:
                return None
            n = rng.choice(c)
            k = rng.randrange(len(n['b']) - 1)
            n['b'][k:k] = [10, 10]
        elif kind == 'extra':
            if e['rc'] != 0:
                return None
            e['names1'].append(dict(p=list(b'nobody.asked'), i=1))
            if not e['node1']:
                return None
        return ev
