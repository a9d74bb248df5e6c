"""helpers to write planted bugs: seed(id, property, needs, what, edits, files, runs)"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(H)
sys.path.insert(0, ROOT + '/lib')
REPO = '/repo'


def diff(edits):
    w = '/tmp/seedwt'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    out = ''
    per = {}
    for f, old, new in edits:
        t = per.setdefault(f, open(REPO + '/' + f).read())
        assert t.count(old) == 1, (f, t.count(old), old)
        per[f] = t.replace(old, new)
    for f, t in per.items():
        os.makedirs(w + '/new', exist_ok=True)
        open(w + '/new/x', 'w').write(t)
        r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, REPO + '/' + f, w + '/new/x'], stdout=subprocess.PIPE, text=True)
        out += 'diff --git a/%s b/%s\n' % (f, f) + r.stdout
    shutil.rmtree(w)
    return out


def seed(sid, prop, needs, what, edits, files=None, runs=(), flags=(), extra=None, built=False):
    d = '%s/seeded/%s' % (ROOT, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff(edits))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    for n in ('demo2.sh', 'demo2.py') if built else ('demo.sh', 'demo.py', 'demo.cpp'):
        shutil.copy(H + '/' + n, d + '/' + n.replace('2', ''))
    for n, b in (files or {}).items():
        open(d + '/' + n, 'wb').write(b)
    for n, b in (extra or {}).items():
        open(d + '/' + n, 'w').write(b)
    json.dump(dict(flags=list(flags), runs=[dict(args=list(a)) for a in runs]), open(d + '/demo.json', 'w'), indent=1)
    subprocess.run(['bash', d + '/demo.sh'], cwd=REPO, env=dict(os.environ, DEMO_RECORD='1'), check=True)
    r = json.load(open(d + '/demo.json'))
    assert all('expect' in x for x in r['runs'])
    print(sid, 'recorded', [len(x['expect']) for x in r['runs']])
