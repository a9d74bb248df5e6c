#!/usr/bin/env python3
"""mutate.py LOG N SEED WORKERS FILE...: N random one-token changes of the files, each tried against the checks until one
alarms.  Prints what survived all of them (an equivalent change, or something the checks do not see)."""
import json, os, random, re, shutil, subprocess, sys, threading
CORE = 'V01 V03 M01 M02 M03 V02 F01 L01 H01 S01 R07 D01 S02 R03 R02 R04 R01 R05 D02 R06'.split()
ORDER = [('apps/', ['C01']), ('python/', ['P01', 'P02']), ('R/', ['Q01', 'Q02']), ('filter/column', ['F01'] + CORE + ['C01', 'P01', 'Q02']),
         ('sink/', ['S01', 'S02', 'C01'] + CORE), ('decomp', ['D01', 'D02', 'R06']), ('header', ['H01'] + CORE), ('', CORE)]
SUBST = [(r' < ', [' <= ']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']), (r'==', ['!=']), (r'!=', ['==']),
         (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<=[\w)\]]) \+(?= (?!0))', [' -']), (r'(?<=[\w)\]] )-(?= )', ['+']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'(?<![\w.\'"])\d+(?![\w.\'"])', ['+1', '-1']), (r'\b0[xX][0-9a-fA-F]+', ['+1']), (r'std::min', ['std::max']), (r'std::max', ['std::min']),
         (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']), (r'!(?=[\w(])', ['']), (r'\+\+', ['--']), (r'\+=', ['=', '-=']), (r'-=', ['=']),
         (r'\*(?= \w)', ['+']), (r' % ', [' / ']), (r' / ', [' % ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r'size_t', ['uint16_t']), 
         (r'\bdouble\b', ['float']), (r'\bTRUE\b', ['FALSE']), (r'\bFALSE\b', ['TRUE']), (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']),
         (r' and ', [' or ']), (r' or ', [' and ']), (r'is None', ['is not None']), (r'\bnot ', ['']), (r'\bif \(', ['if (!']), (r'\boffset\b', ['length']), (r'\blength\b', ['offset'])]


def mutants(path, text):
    out = []
    lines = text.split('\n')
    skip = 0
    for i, ln in enumerate(lines):
        s = ln.strip()
        if skip or s.startswith(('D(', 'FMT_ASSERT(')):          # no code in this build
            skip += s.count('(') - s.count(')')
            continue
        if not s or s.startswith(('//', '*', '/*', '#', 'D(', 'namespace', 'template', 'using', 'static_assert')) or 'spdlog' in s:
            continue
        code = ln.split('//')[0] if '"' not in ln else ln
        for rx, reps in SUBST:
            for m in re.finditer(rx, code):
                if 'template' in ln and m.group() in '<>':
                    continue
                for rp in reps:
                    new = rp
                    if rp in ('+1', '-1'):
                        new = str(int(m.group(), 10) + int(rp)) if not m.group().lower().startswith('0x') else hex(int(m.group(), 16) ^ 1)
                        if new.startswith('-'):
                            continue
                    out.append((i, ln, ln[:m.start()] + new + ln[m.end():]))
        if re.fullmatch(r'[\w.\->\[\]:()+*&, =!<>"%{}]+;', s) and not s.startswith(('return', 'const', 'auto', 'using', 'break', 'continue', 'class', 'struct', 'static', 'typename')) \
                and ('(' in s or '=' in s or '++' in s) and not re.match(r'[\w:<>]+ \w+( =|;|\{)', s):
            out.append((i, ln, re.sub(r'\S.*', ';', ln, count=1)))
        if path.endswith(('.py', '.R')) and re.fullmatch(r'[\w.$@\[\]"\']+ *(<-|<<-|=|\()[^{]*', s) and s.count('(') == s.count(')') and not s.endswith((',', 'function()')):
            out.append((i, ln, re.sub(r'\S.*', 'pass' if path.endswith('.py') else 'NULL', ln, count=1)))
    return [(path, i, a, b) for i, a, b in out if a != b]


def main():
    log, n, seed, workers, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
    src = os.environ.get('REPO', '/repo')
    todo = [m for f in files for m in mutants(f, open(os.path.join(src, f)).read())]
    random.Random(seed).shuffle(todo)
    todo = todo[:n]
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    os.makedirs('/tmp/mutate-gen/cppsas7bdat', exist_ok=True)
    subprocess.run('cp -f $(ls -d /verif/.build/drv-*/gen | head -1)/cppsas7bdat/version.hpp /tmp/mutate-gen/cppsas7bdat/', shell=True)

    def one(w):
        base = '/tmp/mutate.%d.%d' % (os.getpid(), w)
        while True:
            with lock:
                if not todo:
                    break
                path, i, a, b = todo.pop()
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            subprocess.run(['cp', '-a'] + [os.path.join(src, d) for d in ('src', 'include', 'apps', 'python', 'R', 'CMakeLists.txt')] + [base], check=False)
            ls = open(os.path.join(base, path)).read().split('\n')
            assert ls[i] == a
            ls[i] = b
            open(os.path.join(base, path), 'w').write('\n'.join(ls))
            env = dict(os.environ, REPO=base, VERIF_BUILD=base + '/b', VERIF_OUT=base + '/o', VERIF_SEED='1', VERIF_TIER='quick')
            res = 'SURVIVED'
            probe = ['apps/cppsas7bdat-ci.cpp'] + (['src/reader.cpp'] if path.startswith('src') else []) + ([path] if path.endswith('.cpp') else [])
            if not path.startswith(('R/', 'python/')) and any(subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-w', '-DFMT_DEPRECATED_OSTREAM', '-I' + base + '/include', '-I' + base + '/src', '-I/tmp/mutate-gen'] + [f],
                                  cwd=base, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode for f in probe):
                continue
            for pid in next(o for k, o in ORDER if k in path):
                try:
                    r = subprocess.run(['python3', os.environ.get('VERIF', '/verif') + '/tools/check.py', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res = pid + ' TIMEOUT'
                    break
                if r.returncode == 1:
                    res = pid
                    break
                if r.returncode:
                    res = pid + ' rc=%d ' % r.returncode + ('nobuild' if 'does not build' in r.stdout else r.stdout[-300:])
                    break
            with lock:
                with open(log, 'a') as f:
                    f.write(json.dumps(dict(file=path, line=i + 1, a=a.strip(), b=b.strip(), res=res)) + '\n')
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=one, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
