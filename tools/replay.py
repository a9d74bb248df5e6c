#!/usr/bin/env python3
"""replay.py REPLAY.json: runs the recorded sessions again on the code built from /repo and shows the verdicts"""
import json, os, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE) + '/lib', HERE]
import conform
from check import load_replay

if __name__ == '__main__':
    rec, b = load_replay(sys.argv[1])
    w = tempfile.mkdtemp()
    try:
        evs = conform.run_driver(b, w, rec['mode'])
        v, _, _ = conform.validate(b, evs, w)
        for i, s in enumerate(b.sessions):
            print('session', i, s.tag, [l for l, _ in s.lines], [len(b.files[f]) for _, f in s.lines if f is not None])
            for j, e in enumerate(evs[i]):
                print('   ', '>>' if j + 1 == v[i][1] and not v[i][0] else '  ', json.dumps(e)[:int(sys.argv[2]) if len(sys.argv) > 2 else 200])
            print('   ', v[i])
    finally:
        shutil.rmtree(w)
