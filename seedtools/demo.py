import glob, json, os, re, subprocess, sys, tempfile
here, repo = sys.argv[1], sys.argv[2]
spec = json.load(open(here + '/demo.json'))
with tempfile.TemporaryDirectory() as t:
    os.makedirs(t + '/gen/cppsas7bdat')
    v = open(repo + '/include/cppsas7bdat/version.hpp.in').read()
    open(t + '/gen/cppsas7bdat/version.hpp', 'w').write(re.sub(r'@\w+@', '0', v))
    flags = ['-std=c++20', '-O1', '-w', '-DNDEBUG', '-DBOOST_DATE_TIME_NO_LIB', '-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL',
             '-DSPDLOG_SHARED_LIB', '-DFMT_DEPRECATED_OSTREAM', '-DFMT_CONSTEVAL=', '-I' + repo + '/include', '-I' + t + '/gen', '-I' + repo + '/src']
    flags += spec.get('flags', [])
    src = sorted(glob.glob(repo + '/src/*.cpp')) + [here + '/demo.cpp']
    jobs = [subprocess.Popen(['g++', *flags, '-c', f, '-o', '%s/%d.o' % (t, i)]) for i, f in enumerate(src)]
    if any([j.wait() for j in jobs]):
        sys.exit('does not compile')
    subprocess.run(['g++', *flags, *['%s/%d.o' % (t, i) for i in range(len(src))], '-o', t + '/demo', '-lfmt', '-lspdlog'], check=True)
    bad = 0
    for k, run in enumerate(spec['runs']):
        p = subprocess.run([t + '/demo', here, *run['args']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        out = p.stdout.decode(errors='replace')
        if os.environ.get('DEMO_RECORD'):
            run['expect'], run['exit'] = out, p.returncode
            continue
        if out != run['expect'] or p.returncode != run['exit']:
            bad = 1
            print('run %d: %s\nexit %d, expected %d' % (k, ' '.join(run['args']), p.returncode, run['exit']))
            for a, b in zip(out.splitlines() + ['<end>'], run['expect'].splitlines() + ['<end>']):
                if a != b:
                    print('shown:    %s\nexpected: %s' % (a[:300], b[:300]))
                    break
    if os.environ.get('DEMO_RECORD'):
        json.dump(spec, open(here + '/demo.json', 'w'), indent=1)
sys.exit(bad)
