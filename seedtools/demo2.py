import glob, json, os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1], sys.argv[2]
spec = json.load(open(here + '/demo.json'))
env = dict(os.environ, PYTHONPATH=repo + '/_build/py', R_LIBS=repo + '/_build/Rlib', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TZ='UTC')
bad = 0
for k, run in enumerate(spec['runs']):
    with tempfile.TemporaryDirectory() as t:
        for f in glob.glob(here + '/*.sas7bdat') + glob.glob(here + '/run.*'):
            shutil.copy(f, t)
        cmd = [x.replace('{cli}', repo + '/_build/apps/cppsas7bdat-ci') for x in run['args']]
        p = subprocess.run(cmd, cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100)
        out = p.stdout.decode(errors='replace')
        for f in sorted(glob.glob(t + '/*.csv')):
            out += '== ' + os.path.basename(f) + '\n' + open(f, errors='replace').read()
    if os.environ.get('DEMO_RECORD'):
        run['expect'], run['exit'] = out, p.returncode
        print(out)
    elif out != run['expect'] or p.returncode != run['exit']:
        bad = 1
        print('run %d: %s\nexit %d, expected %d' % (k, ' '.join(run['args']), p.returncode, run['exit']))
        for a, b in zip(out.splitlines() + ['<end>'], run['expect'].splitlines() + ['<end>']):
            if a != b:
                print('shown:    %s\nexpected: %s' % (a[:300], b[:300]))
                break
if os.environ.get('DEMO_RECORD'):
    json.dump(spec, open(here + '/demo.json', 'w'), indent=1)
sys.exit(bad)
