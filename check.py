#!/usr/bin/env python3
"""Decide one property by simulation:  check.py <ID> [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
CPY = next((p for p in ('/opt/venv/bin/python', '/opt/veriftools/pyvenv/bin/python') if os.path.exists(p)), sys.executable)
PYPY = '/opt/venv-ext/bin/python'
WORKERS = 8
NATIVE = ('.pyx', '.pxd', '.pxi', '.hpp', '.cpp', '.h', '.c')


def fail(msg):
    sys.stdout.flush()
    sys.stderr.write('check error: %s\n' % msg)
    sys.exit(2)


# --------------------------------------------------------------------------
# the compiled reader

def native_sum(root):
    """the sum of the native sources, as /opt/vp/build_ext.sh computes it"""
    names = [n for n in ('setup.py', 'setup.cfg', 'pyproject.toml') if os.path.isfile(os.path.join(root, n))]
    for d, dirs, files in os.walk(os.path.join(root, 'src')):
        for n in files:
            p = os.path.join(d, n)
            if not n.endswith(NATIVE) or os.path.islink(p):
                continue
            if n.endswith('.cpp') and os.path.exists(p[:-4] + '.pyx'):
                continue
            names.append(os.path.relpath(p, root))
    h = hashlib.sha256()
    for n in sorted(names, key=os.fsencode):
        with open(os.path.join(root, n), 'rb') as f:
            h.update(('%s  %s\n' % (hashlib.sha256(f.read()).hexdigest(), n)).encode())
    return h.hexdigest()


def build_ext(scratch):
    """a private package directory with the Python sources and a compiled reader made from the current tree"""
    tree = os.path.join(scratch, 'tree')
    os.makedirs(tree)
    for n in os.listdir(REPO):
        if n in ('.git', 'build', 'tests', 'docs', 'dist') or n.endswith('.egg-info'):
            continue
        p = os.path.join(REPO, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(tree, n), symlinks=True,
                            ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.pyc', '_ext.cpp', '*.egg-info'))
        else:
            shutil.copy2(p, tree)
    so = [n for n in os.listdir(os.path.join(REPO, 'src', 'avb')) if n.startswith('_ext.') and n.endswith('.so')]
    stamp = os.path.join(REPO, 'build', 'vp_ext.sha256')
    if so and os.path.exists(stamp) and stamp_matches(stamp):
        for n in so:
            shutil.copy2(os.path.join(REPO, 'src', 'avb', n), os.path.join(tree, 'src', 'avb', n))
        return os.path.join(tree, 'src'), 'copied'
    env = dict(os.environ, PYAVB_BUILD_EXT='1', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PYPY, 'setup.py', 'build_ext', '--inplace'], cwd=tree, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if not any(n.startswith('_ext.') and n.endswith('.so') for n in os.listdir(os.path.join(tree, 'src', 'avb'))):
        fail('the compiled reader did not build:\n' + r.stdout.decode('utf-8', 'replace')[-2000:])
    return os.path.join(tree, 'src'), 'built'


def stamp_matches(stamp):
    with open(stamp) as f:
        return f.read().split()[:1] == [native_sum(REPO)]


# --------------------------------------------------------------------------

class Worker(object):
    def __init__(self, args, mode, pkg, hashseed, out):
        self.out = out
        self.mode = mode
        self.args = args
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONPATH=pkg, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
                   SIM_PKG=pkg, LC_ALL='C.UTF-8', PYPY_GC_NURSERY='512M')
        self.hashseed = hashseed
        open(out, 'w').close()
        # what compiled code keeps alive, and for how long, differs between executions: without the JIT it does not
        exe = [PYPY, '--jit', 'off'] if mode == 'ext' else [CPY]
        self.err = open(out + '.err', 'wb')
        self.p = subprocess.Popen(exe + ['-B', os.path.join(HERE, 'sim', 'worker.py')] + [str(a) for a in args] + [out],
                                  env=env, cwd=HERE, stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL,
                                  start_new_session=True)
        self.pos = 0
        self.lines = []
        self.touched = time.monotonic()
        self.at = None
        self.done = None

    def poll(self):
        with open(self.out) as f:
            f.seek(self.pos)
            data = f.read()
        k = data.rfind('\n')
        if k >= 0:
            self.pos += len(data[:k + 1].encode('utf-8'))
            for line in data[:k].split('\n'):
                r = json.loads(line)
                self.touched = time.monotonic()
                if r.get('t') == 'at':
                    self.at = r['i']
                else:
                    self.lines.append(r)
                    if r.get('t') == 'run':
                        self.at = None
                    if r.get('t') == 'done':
                        self.done = r
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def errors(self):
        self.err.flush()
        with open(self.out + '.err', 'rb') as f:
            return f.read()[-2500:].decode('utf-8', 'replace')


def packages(modes, scratch):
    out = {'pure': os.path.join(REPO, 'src')}
    if 'ext' in modes:
        out['ext'], out['how'] = build_ext(scratch)
    return out


def run_replay(path, scratch, pkgs=None, limit=150):
    """-> (kind or None, record)"""
    with open(path) as f:
        r = json.load(f)
    pkgs = pkgs or packages([r['mode']], scratch)
    if r.get('hashseeds'):
        # the same case in processes that differ in their hash seed only
        digests = []
        for h in r['hashseeds']:
            one = os.path.join(scratch, 'one.json')
            with open(one, 'w') as f:
                json.dump(dict(r, hashseeds=None, hashseed=h), f)
            k, x = run_replay(one, scratch, pkgs, limit)
            digests.append((k, x['digest']))
        same = len(set(digests)) == 1
        return (None if same else r['kind']), {'digest': None, 'detail': '%s with hash seeds %s' % (digests, r['hashseeds'])}
    out = os.path.join(scratch, 'replay.%d.out' % os.getpid())
    w = Worker(['replay', path], r['mode'], pkgs[r['mode']], r.get('hashseed', 0), out)
    end = time.monotonic() + limit
    while w.poll() is None and time.monotonic() < end:
        time.sleep(0.02)
    if w.p.poll() is None:
        w.kill()
        return 'does not end', {'digest': None, 'detail': 'killed after %d s' % limit, 'kind': 'does not end'}
    w.poll()
    for x in w.lines:
        if x.get('t') == 'replayed':
            return x['kind'], x
        if x.get('t') == 'error':
            fail(x['detail'])
    return 'process died', {'digest': None, 'detail': 'status %s\n%s' % (w.p.returncode, w.errors()), 'kind': 'process died'}


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            out = json.load(f)['findings']
    return out


def main():
    a = sys.argv[1:]
    if not a:
        fail('usage: check.py <ID> [--tier quick|thorough] [--replay FILE]')
    if a[0] == '--setup':
        # nothing to build ahead: every check takes the sources as they are and compiles the native reader if it is stale
        for p in (CPY, PYPY):
            if subprocess.run([p, '-c', 'import json, hashlib'], stdout=subprocess.DEVNULL).returncode:
                fail('%s does not run' % p)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('ready')
        sys.exit(0)
    name = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    scratch = tempfile.mkdtemp(prefix='simcheck-')
    workers = []

    def bye(*x):
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        if '--replay' in a:
            path = os.path.abspath(a[a.index('--replay') + 1])
            kind, r = run_replay(path, scratch)
            if kind:
                print('%s: %s' % (kind, r.get('detail')))
                for line in (r.get('trace') or [])[-30:]:
                    print('  ' + line)
                print('VIOLATION property=%s replay=%s' % (name, path))
                sys.exit(1)
            print('the replay shows no violation')
            sys.exit(0)
        sys.exit(batch(name, tier, seed, scratch, workers))
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def batch(name, tier, seed, scratch, workers):
    t0 = time.monotonic()
    info = subprocess.run([CPY, '-B', os.path.join(HERE, 'sim', 'describe.py'), name, str(seed), tier], stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'),
                                                           PYTHONDONTWRITEBYTECODE='1'))
    if info.returncode == 3:
        # the package cannot even be imported
        path = save_replay(name, {'property': name, 'mode': 'pure', 'case': {}, 'kind': 'import', 'detail': info.stderr.decode()[-1500:]})
        print(info.stderr.decode()[-1500:])
        print('VIOLATION property=%s replay=%s' % (name, path))
        return 1
    if info.returncode:
        fail(info.stderr.decode('utf-8', 'replace')[-2000:])
    d = json.loads(info.stdout)
    runs = d['runs'][tier]
    modes = [m for m in ('pure', 'ext') if runs.get(m)]
    pkgs = packages(modes, scratch)
    deadline = d['deadline'][tier]
    share = {m: max(1, n) for m, n in d['workers'].items() if m in modes}
    n = 0
    for m in modes:
        k = share[m]
        for j in range(k):
            out = os.path.join(scratch, '%s.%d.out' % (m, j))
            workers.append(Worker([name, m, tier, seed, j, k, runs[m], deadline], m, pkgs[m], 1 + n, out))
            n += 1
    found = None
    stall = d['wall_limit'] + 60
    while True:
        alive = 0
        for w in workers:
            rc = w.poll()
            for x in w.lines:
                if x.get('t') == 'violation' and (found is None):
                    found = (w, x)
                if x.get('t') == 'error':
                    for v in workers:
                        v.kill()
                    fail(x['detail'])
            if rc is None:
                alive += 1
                busy = not any(x.get('t') == 'found' for x in w.lines)
                if busy and time.monotonic() - w.touched > stall:
                    w.kill()
                    w.stalled = True
                    found = found or (w, {'t': 'violation', 'i': w.at, 'kind': 'does not end', 'case': None,
                                          'detail': 'no progress for %d s' % stall, 'trace': []})
            elif w.done is None and not any(x.get('t') == 'violation' for x in w.lines) and not getattr(w, 'stalled', 0):
                # let the last lines arrive
                w.poll()
                if w.done is None and found is None and not any(x.get('t') in ('violation', 'error') for x in w.lines):
                    found = (w, {'t': 'violation', 'i': w.at, 'kind': 'process died', 'case': None,
                                 'detail': 'status %s\n%s' % (rc, w.errors()), 'trace': []})
        if found or not alive:
            break
        time.sleep(0.05)
    for w in workers:
        w.kill() if found else w.p.wait()
        w.poll()
    if not found and d['common']:
        found = hash_seeds(name, tier, seed, d['common'], modes, pkgs, scratch, workers)
    wall = time.monotonic() - t0
    violation_path = None
    if found:
        w, x = found
        if x['case'] is None:
            x['case'] = find_case(name, w, x, tier, seed, runs, scratch, pkgs)
        rec = {'hashseeds': x.get('hashseeds'), 'property': name, 'mode': w.mode, 'tier': tier, 'seed': seed, 'index': x['i'], 'kind': x['kind'],
               'detail': x['detail'], 'case': x['case'], 'original': x.get('original'), 'hashseed': w.hashseed,
               'digest': x.get('digest'), 'trace': x.get('trace')}
        violation_path = save_replay(name, rec)
        kind, r = run_replay(violation_path, scratch, pkgs)
        if not x.get('hashseeds') and kind is None and x.get('original') is not None and x['original'] != x['case']:
            rec['case'] = x['original']
            save_replay(name, rec, violation_path)
            kind, r = run_replay(violation_path, scratch, pkgs)
        rec['reproduced'] = kind == x['kind'] and (x.get('digest') is None or r.get('digest') == x.get('digest'))
        save_replay(name, rec, violation_path)
        print('%s (%s, run %s): %s' % (x['kind'], w.mode, x['i'], x['detail']))
        print('case: %s' % json.dumps(rec['case'])[:1500])
        print('replayed in a fresh process: %s' % ('the same' if rec['reproduced'] else kind))
    evidence(name, tier, seed, d, workers, wall, bool(found), pkgs)
    for k in known_findings():
        if k['property'] == name and any(k['id'] in (w.done or {}).get('known', []) for w in workers):
            print('KNOWN-FINDING: property=%s %s' % (name, k['what']))
    if found:
        print('VIOLATION property=%s replay=%s' % (name, violation_path))
        return 1
    runs_done = sum(1 for w in workers for x in w.lines if x.get('t') == 'run')
    if runs_done < d['minimum']:
        fail('only %d runs in the time there was, %d needed' % (runs_done, d['minimum']))
    print('%s: held on %d runs in %.1f s' % (name, runs_done, wall))
    return 0


SEEDS = (1, 77, 4242)


def hash_seeds(name, tier, seed, common, modes, pkgs, scratch, workers):
    """the first runs again, in processes with other hash seeds: the event logs, saved bytes included, have to be equal"""
    for m in modes:
        n = common.get(m, 0)
        group = []
        for h in SEEDS:
            for j in range(2):
                out = os.path.join(scratch, 'common.%s.%d.%d' % (m, h, j))
                w = Worker(['digests', name, m, tier, seed, j, 2, n], m, pkgs[m], h, out)
                workers.append(w)
                group.append((h, w))
        seen = {}
        end = time.monotonic() + 200
        for h, w in group:
            while w.poll() is None and time.monotonic() < end:
                time.sleep(0.05)
            w.poll()
            workers.remove(w)
            w.kill()
            for x in w.lines:
                if x.get('t') == 'error':
                    fail(x['detail'])
                if 'd' in x:
                    seen.setdefault(x['i'], {})[h] = x
        for i in sorted(seen):
            a = seen[i].get(SEEDS[0])
            for h in SEEDS[1:]:
                b = seen[i].get(h)
                if a and b and a['d'] != b['d']:
                    return group[0][1], {'i': i, 'kind': 'saves depend on the hash seed', 'hashseeds': [SEEDS[0], h],
                                         'case': make_case(name, m, tier, seed, i), 'trace': [],
                                         'detail': 'one history writes other bytes under hash seed %d than under %d' % (h, SEEDS[0])}
    return None


def make_case(name, mode, tier, seed, i):
    r = subprocess.run([CPY, '-B', os.path.join(HERE, 'sim', 'describe.py'), name, 'case', mode, tier, str(seed), str(i)],
                       stdout=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1'))
    return json.loads(r.stdout)


def find_case(name, w, x, tier, seed, runs, scratch, pkgs):
    """the case a dead or stuck worker was at: the first from its last sign of life on that ends the same way"""
    start = (w.at if w.at is not None else w.args[4])
    done = [r['i'] for r in w.lines if r.get('t') == 'run']
    nxt = (max(done) + w.args[5]) if done else w.args[4]
    x['i'] = nxt
    case = make_case(name, w.mode, tier, seed, nxt)
    # drop operations while it still ends the same way, a fresh process each time
    end = time.monotonic() + 60
    sys.path.insert(0, HERE)
    from sim import core
    tmp = os.path.join(scratch, 'try.json')

    def test(c):
        with open(tmp, 'w') as f:
            json.dump({'property': name, 'mode': w.mode, 'case': c, 'hashseed': w.hashseed}, f)
        return run_replay(tmp, scratch, pkgs, limit=20)[0] == x['kind']
    if x['kind'] == 'process died':
        case, n = core.minimise(case, test, 40)
    return case


def save_replay(name, rec, path=None):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    if path is None:
        h = hashlib.sha256(json.dumps(rec['case'], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (name, h))
    with open(path + '.tmp', 'w') as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)
    return path


def evidence(name, tier, seed, d, workers, wall, found, pkgs):
    counts = {}
    states = set()
    extra = {}
    digests = set()
    runs = {}
    events = nontrivial = 0
    soft = 0
    for w in workers:
        for x in w.lines:
            if x.get('t') == 'run':
                runs[w.mode] = runs.get(w.mode, 0) + 1
                events += x['e']
                if x['nt']:
                    digests.add((w.mode, x['d']))
            soft += x.get('t') == 'soft_stop'
        for k, v in (w.done or {}).get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        states |= set((w.done or {}).get('states', []))
        for k, v in (w.done or {}).get('extra', {}).items():
            extra[k] = v
    total = sum(runs.values())
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault:')}
    cov = {
        'evaluations': total,
        'distinct_nontrivial': len(digests),
        'rule': d['rule'] + '; two runs are the same when their event logs are equal',
        'samples': d['samples'],
        'runs_by_configuration': runs,
        'runs_per_hour': int(total / max(wall, 0.01) * 3600),
        'events': events,
        'faults_injected': faults,
        'operations': {k: v for k, v in sorted(counts.items()) if not k.startswith(('fault:', 'edit:'))},
        'edits_by_class': {k[5:]: v for k, v in sorted(counts.items()) if k.startswith('edit:')},
        'distinct_states': len(states),
        'distinct_states_measure': d['states_rule'],
        'simulated_time': extra.pop('simulated_time', d['simulated_time']),
        'real_components': d['real'],
        'stubbed_components': d['stub'],
        'compiled_reader': pkgs.get('how', 'not used'),
        'stopped_early_workers': soft,
    }
    if extra:
        cov['other'] = extra
    ev = {'property': name, 'tier': tier, 'seed': seed, 'level': d['level'], 'coverage': cov,
          'assumptions': d['assumptions'], 'wall_s': round(wall, 2), 'violations': 1 if found else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', name + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
