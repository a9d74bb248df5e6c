#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. model-checks the specification's own statement of the property (TLC),
2. runs sessions on the code built from /repo's working tree and lets TLC decide whether each is a behaviour of the
   specification (spec/Trace.tla), with corrupted copies of accepted sessions (canaries) that must be rejected.
Exit 0: held; 1 + VIOLATION line: a confirmed rejection; 2: the machinery failed."""
import base64, copy, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT + '/lib')
import conform
from conform import Batch, MachineryError, Session
import plans

EVID = os.path.join(ROOT, 'evidence')


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line.strip())
        if m:
            out.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return out


# ------------------------------------------------------------------ TLC jobs
def tlc_job(module, cfg, work, workers, args, timeout, res, key):
    t = time.time()
    try:
        rc, out = conform.run_tlc(module + '.tla', cfg, work, {}, workers, timeout, args=args)
        res[key] = dict(module=module, cfg=cfg, rc=rc, out=out, wall=time.time() - t)
    except Exception as e:
        res[key] = dict(module=module, cfg=cfg, rc=-1, out=repr(e), wall=time.time() - t)


def exported(out):
    tests = []
    for line in out.splitlines():
        if line.startswith('"TEST '):
            tests.append(json.loads(json.loads(line)[5:]))
    return tests


# ------------------------------------------------------------------ canaries: corrupted copies of sessions
def corrupt(kind, ev, rng, facets=()):
    ev = copy.deepcopy(ev)
    at = lambda f: [i for i, e in enumerate(ev) if f(e)]
    push = at(lambda e: e['e'] == 'push')
    if kind == 'dup':
        if not push:
            return None
        i = rng.choice(push)
        ev.insert(i, copy.deepcopy(ev[i]))
    elif kind == 'drop':
        if not push:
            return None
        del ev[rng.choice(push)]
    elif kind == 'swap':
        if len(push) < 2:
            return None
        i = rng.randrange(len(push) - 1)
        a, b = push[i], push[i + 1]
        if ev[a].get('raw') == ev[b].get('raw'):
            return None
        ev[a]['raw'], ev[b]['raw'] = ev[b]['raw'], ev[a]['raw']
    elif kind == 'bytes':
        c = [i for i in push if ev[i].get('raw')]
        if not c:
            return None
        r = ev[rng.choice(c)]['raw']
        r[rng.randrange(len(r))] ^= 1 << rng.randrange(8)
    elif kind == 'ret':
        c = at(lambda e: e['e'] == 'ret' and e['op'] in ('row', 'rows', 'skip', 'nosink'))
        if not c:
            return None
        ev[rng.choice(c)]['v'] ^= 1
    elif kind == 'idx':
        c = at(lambda e: e['e'] == 'ret')
        if not c:
            return None
        ev[rng.choice(c)]['idx'][3] ^= 1
    elif kind == 'pos':
        c = at(lambda e: e['e'] in ('ret', 'set'))
        if not c:
            return None
        ev[rng.choice(c)]['pos'] += 1
    elif kind == 'eod':
        c = at(lambda e: e['e'] == 'eod')
        if not c:
            return None
        del ev[rng.choice(c)]
    elif kind == 'props':
        c = at(lambda e: 'props' in e)
        if not c:
            return None
        p = ev[rng.choice(c)]['props']
        k = rng.choice(HDRKEYS * ('hdr' in facets) + METAKEYS * ('meta' in facets) + LOGKEYS * ('agree' in facets))
        if isinstance(p[k], str):
            p[k] += 'x'
        elif len(p[k]) == 4:
            p[k][3] ^= 1
        else:
            p[k] = p[k] + [120]
    elif kind in ('colname', 'coltype'):
        c = at(lambda e: e.get('cols'))
        if not c:
            return None
        q = rng.choice(ev[rng.choice(c)]['cols'])
        if kind == 'colname':
            k = rng.choice(['name', 'label', 'format'])
            q[k] = q[k] + [120]
        else:
            q['type'] = 'number' if q['type'] != 'number' else 'string'
    elif kind in ('cellval', 'celltemp'):
        c = [(i, j) for i in push for j, v in enumerate(ev[i].get('v', [])) if v != [-2]
             if (len(v) in ((4, 5, 6, 7, 3) if kind == 'celltemp' else (1, 8)))]
        if kind == 'celltemp':
            c = [(i, j) for i, j in c if len(ev[i]['v'][j]) in (3, 5, 7)]
        if not c:
            return None
        i, j = rng.choice(c)
        v = ev[i]['v'][j]
        v[rng.randrange(len(v)) if kind == 'cellval' else 2] ^= 1
    elif kind == 'text':
        c = at(lambda e: e['e'] == 'text' and len(e['v']) > 3)
        if not c:
            return None
        v = ev[rng.choice(c)]['v']
        # two line ends fit nowhere, not even where the specification leaves a field open
        k = rng.randrange(len(v) - 1)
        v[k:k] = [10, 10]
    return ev


HDRKEYS = ['dataset', 'hlen', 'endian', 'platform', 'release', 'pcount']
LOGKEYS = ['dataset', 'platform', 'release', 'ftype', 'rowcount', 'ncols']
METAKEYS = ['rowcount', 'ncols', 'compression', 'proc', 'mixrows', 'rowlen']


def with_canaries(batch, evs, kinds, rng, n):
    """append corrupted copies; returns {canary index: original index}"""
    out = {}
    idx = list(range(len(batch.sessions)))
    rng.shuffle(idx)
    for kind in kinds:
        got = 0
        for i in idx:
            if got == n:
                break
            if evs[i][-1]['e'] != 'done':
                continue
            c = (getattr(batch, 'corrupt', None) or corrupt)(kind, evs[i], rng, batch.facets)
            if c is None or c == evs[i]:
                continue
            s = copy.copy(batch.sessions[i])
            s.tag = 'canary ' + kind
            batch.sessions.append(s)
            evs.append(c)
            out[len(batch.sessions) - 1] = i
            got += 1
    return out


# ------------------------------------------------------------------ replays
def save_replay(pid, seed, batch, evs, verdict, mode, n=5):
    d = os.path.join(EVID, 'replays', '%s-%d-%d' % (pid, seed, os.getpid()))
    os.makedirs(d, exist_ok=True)
    rec = dict(property=pid, mode=mode, kind=type(batch).__name__, facets=batch.facets, cfg=batch.cfg, known=getattr(batch, 'known', None),
               files=[base64.b64encode(f).decode() for f in batch.files],
               sessions=[dict(tag=s.tag, lines=s.lines, rd=list(s.rd.values()), extra=s.extra) for s in batch.sessions],
               verdicts=[dict(accepted=v[0], event=v[1], why=v[2]) for v in verdict], events=evs)
    p = os.path.join(d, 'replay.json')
    json.dump(rec, open(p, 'w'))
    return p


def load_replay(path):
    r = json.load(open(path))
    b = plans.BATCHES[r.get('kind', 'Batch')](r['facets'])
    b.cfg = r.get('cfg', 'Trace.cfg')
    b.files = [base64.b64decode(f) for f in r['files']]
    for s in r['sessions']:
        t = Session(b, s['tag'])
        t.lines = [tuple(x) for x in s['lines']]
        t.rd = {d['rid']: d for d in s['rd']}
        t.extra = s['extra']
        b.sessions.append(t)
    return r, b


# ------------------------------------------------------------------ the check
class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = plans.PROPS[pid]
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], model_checking_runs=[], canaries_rejected=0,
                        sessions_by_kind={}, events_compared=0)
        self.known = [k for k in known_findings() if k['property'] == pid]
        self.violation = None
        self.findings = []
        self.assume = []

    def note(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def model_check(self):
        """start the specification runs; they go on next to the driver build"""
        self.jobs, self.res = [], {}
        todo = []
        cfgs = set()
        for module, c in self.p.mc:
            cfgs.add((module, c[self.tier]))
        for module, cfg in sorted(cfgs):
            todo.append((module, cfg, (), 7))
        if self.p.export:
            module, cfg = self.p.export
            if module == 'MC_Reader':
                n = 2500 if self.tier == 'quick' else 25000
                todo.append((module, cfg, ('-simulate', 'num=%d' % n, '-depth', '200', '-seed', str(self.seed)), 1))
            else:
                todo.append((module, cfg if self.tier == 'quick' else cfg.replace('_x', '_xt'), (), 2))
        for i, (module, cfg, args, workers) in enumerate(todo):
            th = threading.Thread(target=tlc_job, args=(module, cfg, self.sub('mc%d' % i), workers, args, 800 if self.tier == 'quick' else 7200, self.res, i))
            th.start()
            self.jobs.append(th)

    def finish_export(self):
        exports = []
        if self.p.export:
            self.jobs[-1].join()
            r = self.res[len(self.jobs) - 1]
            if r['rc'] != 0:
                raise MachineryError('export: TLC exit %s\n%s' % (r['rc'], r['out'][-3000:]))
            exports = exported(r['out'])
            if not exports:
                raise MachineryError('TLC exported nothing')
            self.note('%d behaviours exported by TLC (%s, %.0f s)' % (len(exports), r['cfg'], r['wall']))
        return exports

    def finish_mc(self):
        for j in self.jobs:
            j.join()
        for i in sorted(self.res):
            r = self.res[i]
            if r['rc'] != 0:
                raise MachineryError('model checking %s/%s: TLC exit %s\n%s' % (r['module'], r['cfg'], r['rc'], r['out'][-3000:]))
            g, d = conform.stats(r['out'])
            if not d:
                m = re.search(r'number of states generated: ([\d,]+)', r['out'])
                g = int(m.group(1).replace(',', '')) if m else 0
            self.cov['model_checking_runs'].append(dict(module=r['module'], config=r['cfg'], distinct_states=d, states_generated=g, wall_s=round(r['wall'], 1)))
            self.cov['states'] += d
            self.cov['transitions'] += g
            self.note('model checked %s %s: %d distinct states, %d generated, %.0f s' % (r['module'], r['cfg'], d, g, r['wall']))

    def chunks(self, batch, limit=9000000):
        """split a batch so that TLC never has too much to load"""
        out, cur, size, seen = [], [], 0, set()
        for i, s in enumerate(batch.sessions):
            fs = {f for _, f in s.lines if f is not None} - seen
            n = sum(len(batch.files[f]) for f in fs)
            if cur and (size + n > limit or len(cur) >= 4000):
                out.append(cur)
                cur, size, seen = [], 0, set()
                fs = {f for _, f in s.lines if f is not None}
                n = sum(len(batch.files[f]) for f in fs)
            cur.append(i)
            seen |= fs
            size += n
        if cur:
            out.append(cur)
        return [batch.subset(x) if len(out) > 1 else batch for x in out]

    def conform(self, batch, rng, name):
        batch_known = getattr(batch, 'known', None)
        for ci, b in enumerate(self.chunks(batch)):
            b.known = batch_known
            w = self.sub('%s%d' % (name, ci))
            real = len(b.sessions)
            evs = conform.run_driver(b, w, self.p.mode)
            can = with_canaries(b, evs, self.p.canary, rng, 2) if not batch_known else {}
            v, d, g = conform.validate(b, evs, w)
            self.note('%s: %d sessions, %d canaries, %d events, %d states' % (b.name, real, len(can), sum(map(len, evs[:real])), d))
            self.cov['states'] += d
            self.cov['transitions'] += g
            self.cov['events_compared'] += sum(map(len, evs[:real]))
            for s in b.sessions[:real]:
                self.cov['sessions_by_kind'][s.tag] = self.cov['sessions_by_kind'].get(s.tag, 0) + 1
            self.cov['traces_validated_against_impl'] += sum(1 for x in v[:real] if x[0])
            for i in rng.sample(range(real), min(3, real)):
                if len(self.cov['samples']) < 6:
                    s = b.sessions[i]
                    self.cov['samples'].append(dict(kind=s.tag, script=[l for l, _ in s.lines][:12], file_bytes=[len(b.files[f]) for _, f in s.lines if f is not None],
                                                    events=len(evs[i]), verdict='accepted' if v[i][0] else 'rejected: ' + v[i][2]))
            blind = None
            for c, o in can.items():
                if v[c][0] and v[o][0] and v[c][2] != 'loose':
                    blind = MachineryError('a corrupted session (%s, copy of %d) was accepted: the binding is broken' % (b.sessions[c].tag, o))
                self.cov['canaries_rejected'] += not v[c][0]
            bad = [i for i in range(real) if not v[i][0]]
            del b.sessions[real:]
            if bad:
                self.judge(b, bad, v, w, evs)
                if self.violation:
                    return
            if blind:
                raise blind

    def judge(self, b, bad, v, w, first):
        """re-run rejected sessions; a rejection is a violation unless it is exactly a known finding"""
        self.note('%d rejected, first: session %d event %d: %s' % (len(bad), bad[0], v[bad[0]][1], v[bad[0]][2]))
        sub = b.subset(bad[:40])
        sub.known = b.known
        evs = conform.run_driver(sub, w, self.p.mode)
        v2, _, _ = conform.validate(sub, evs, w)
        again = [i for i in range(len(sub.sessions)) if not v2[i][0]]
        if not again:
            # what was logged did happen; only a process that died once may be the machine's doing
            if all(v[i][2] == 'the process died' for i in bad):
                for _ in range(4):
                    evs = conform.run_driver(sub, w, self.p.mode)
                    v2, _, _ = conform.validate(sub, evs, w)
                    again = [i for i in range(len(sub.sessions)) if not v2[i][0]]
                    if again:
                        break
                else:
                    raise MachineryError('a process died and did not die again')
        if not again:
            again, sub, evs, v2 = list(range(len(bad[:40]))), sub, [first[i] for i in bad[:40]], [v[i] for i in bad[:40]]
        if b.known and any(k['key'] == b.known for k in self.known):
            left = [i for i in range(len(b.sessions)) if i in bad]
            sub2 = b.subset(left)
            evs2 = conform.run_driver(sub2, w, self.p.mode)
            v3, _, _ = conform.validate(sub2, evs2, w, cfg='Trace_%s.cfg' % b.known)
            rest = [i for i in range(len(sub2.sessions)) if not v3[i][0]]
            if not rest:
                k = [k for k in self.known if k['key'] == b.known][0]
                self.findings.append(k)
                self.cov['known_finding_sessions'] = len(left)
                return
            sub, evs, v2, again = sub2.subset(rest), [evs2[i] for i in rest], [v3[i] for i in rest], list(range(len(rest)))
        keep = again[:8]
        rep = sub.subset(keep)
        rep.known = b.known
        path = save_replay(self.pid, self.seed, rep, [evs[i] for i in keep], [v2[i] for i in keep], self.p.mode)
        self.violation = path
        for i in keep[:3]:
            self.note('  %s: %s' % (sub.sessions[i].tag, v2[i][2]), json.dumps(evs[i][v2[i][1] - 1])[:300])

    def main(self):
        rng = random.Random('%s %d' % (self.pid, self.seed))
        try:
            self.model_check()
            conform.build_driver(self.p.mode)
            self.note('driver built')
            exports = self.finish_export()
            batches = self.p.gen(rng, self.tier, exports)
            for k, b in enumerate(batches):
                self.conform(b, rng, 'b%d_' % k)
                if self.violation:
                    break
            self.finish_mc()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        return self.report()

    def report(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=self.cov,
                  assumptions=['TLC and its community modules', 'the driver logs what the public API returns and passes to the sink', *self.assume],
                  wall_s=round(time.time() - self.t0, 1), violations=1 if self.violation else 0)
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1)
        for k in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violation:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violation))
            return 1
        self.note('held on everything explored')
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = plans.PROPS[pid]
    try:
        cls = getattr(p, 'runner', None) or Run
        sys.exit(cls(pid, tier, seed).main())
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        sys.exit(2)
    except Exception:
        print('MACHINERY ERROR:')
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)


if __name__ == '__main__':
    main()
