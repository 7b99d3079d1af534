#!/usr/bin/env python3
"""Shows that one case is one execution: the event digests of the same cases, from processes that differ in hash seed,
number of processes, order of the cases and load, have to be equal.

determinism.py [-n RUNS] [--start K] [ID ...]
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check


def launch(name, mode, pkg, start, step, stop, hashseed, out):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONPATH=pkg, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', TZ='UTC', SIM_PKG=pkg, LC_ALL='C.UTF-8', PYPY_GC_NURSERY='512M')
    exe = [check.PYPY, '--jit', 'off'] if mode == 'ext' else [check.CPY]
    args = [name, mode, 'quick', '1', str(start), str(step), str(stop), out]
    return subprocess.Popen(exe + ['-B', os.path.join(HERE, 'sim', 'worker.py'), 'digests'] + args, env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=HERE)


def main():
    a = sys.argv[1:]
    n, start = 200, 0
    if '-n' in a:
        n = int(a[a.index('-n') + 1])
        del a[a.index('-n'):a.index('-n') + 2]
    if '--start' in a:
        start = int(a[a.index('--start') + 1])
        del a[a.index('--start'):a.index('--start') + 2]
    ids = a or [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    bad = 0
    with tempfile.TemporaryDirectory() as scratch:
        pkgs = check.packages(['pure', 'ext'], scratch)
        for name in ids:
            for mode in ('pure', 'ext'):
                m = n if mode == 'pure' else n // 3
                groups = []
                for label, k, hs in (('one process', 1, 0), ('three processes', 3, 11), ('four processes', 4, 4242)):
                    group = []
                    for j in range(k):
                        out = os.path.join(scratch, '%s%s%d%d' % (name, mode, k, j))
                        open(out, 'w').close()
                        group.append((launch(name, mode, pkgs[mode], start + j, k, start + m, hs + j, out), out))
                    groups.append((label, group))
                res = []
                for label, group in groups:
                    d = {}
                    for p, out in group:
                        p.wait()
                        for line in open(out):
                            r = json.loads(line)
                            if 'i' in r:
                                d[r['i']] = (r['d'], r['v'])
                            else:
                                print(name, mode, label, r)
                                bad += 1
                    res.append(d)
                diff = sorted(i for i in res[0] if any(x.get(i) != res[0][i] for x in res[1:]))
                if diff or len(res[0]) != m:
                    bad += 1
                print('%s %-4s %5d cases x 3: %s' % (name, mode, len(res[0]), 'differ at %s' % diff[:10] if diff else 'equal'), flush=True)
                for i in diff[:5]:
                    print('   ', i, [x.get(i) for x in res])
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
