#!/usr/bin/env python3
"""Try planted bugs in scratch copies:  plant.py [-j N] [--nocheck] [--notest] [--tier T] ID...   (default: all)

Each copy of /repo is bound over /repo in a private mount namespace, so the real build, tests, demo and check run as
they are.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
WORK = '/tmp/plants'


def inside(repo, vp, cmd, cwd='/repo', timeout=1500, env=None):
    script = 'mount --bind %s /repo && mount --bind %s /opt/vp && cd %s && exec %s' % (repo, vp, cwd, cmd)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 999, 'timeout'


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def one(pid, check=True, tests=True, tier='quick', keep=False):
    src = os.path.join(SEEDED, pid)
    meta = json.load(open(os.path.join(src, 'meta.json')))
    top = os.path.join(WORK, pid)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    repo, vp, demo = top + '/repo', top + '/vp', top + '/demo'
    out = {'id': pid, 'property': meta['property']}
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['cp', '-a', '/opt/vp', vp], check=True)
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        d = 'bash %s/demo.sh' % demo
        if tests:
            rc, o = inside(repo, vp, d, timeout=320)
            out['demo_clean'] = rc
            if rc:
                out['demo_clean_output'] = o[-800:]
        r = subprocess.run(['git', 'apply', os.path.join(src, 'patch.diff')], cwd=repo, stderr=subprocess.PIPE)
        if r.returncode:
            out['error'] = 'does not apply: ' + r.stderr.decode()[:300]
            return out
        rc, o = inside(repo, vp, 'bash /opt/vp/build.sh')
        out['build'] = rc
        if rc:
            out['build_output'] = o[-800:]
            return out
        if tests:
            rc, o = inside(repo, vp, 'bash /opt/vp/test.sh %s/t.json' % top)
            t = json.load(open(top + '/t.json'))
            out['passed'], out['failed'] = len(t['passed']), len(t['failed'])
            if t['failed']:
                out['failed_tests'] = t['failed'][:5]
            rc, o = inside(repo, vp, d, timeout=320)
            out['demo_patched'] = rc
            out['valid'] = out['demo_clean'] == 0 and rc != 0 and not t['failed'] and len(t['passed']) >= 122
            out['demo_patched_output'] = o[-200:]
        if check:
            ver = top + '/verif'
            shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence', '__pycache__'))
            rc, o = inside(repo, vp, 'python3 check.py %s --tier %s' % (meta['property'], tier), cwd=ver, timeout=3000,
                           env={'VERIF_SEED': '1', 'VERIF_TIER': tier})
            out['check'] = rc
            out['caught'] = rc == 1 and ('VIOLATION property=%s ' % meta['property']) in o
            out['check_output'] = o.strip()[:600] if rc == 1 else o[-600:]
    finally:
        if not keep:
            shutil.rmtree(top, ignore_errors=True)
    return out


def main():
    a = sys.argv[1:]
    jobs = 1
    kw = {}
    ids = []
    i = 0
    while i < len(a):
        if a[i] == '-j':
            i += 1
            jobs = int(a[i])
        elif a[i] == '--nocheck':
            kw['check'] = False
        elif a[i] == '--notest':
            kw['tests'] = False
        elif a[i] == '--keep':
            kw['keep'] = True
        elif a[i] == '--tier':
            i += 1
            kw['tier'] = a[i]
        else:
            ids.append(a[i])
        i += 1
    ids = ids or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(lambda p: one(p, **kw), ids):
            print('%-28s %s valid=%s caught=%s' % (o['id'], o['property'], o.get('valid'), o.get('caught')), flush=True)
            if not o.get('valid', True) or o.get('caught') is False or o.get('error') or kw.get('check', True):
                for k in ('error', 'build_output', 'demo_clean', 'demo_clean_output', 'demo_patched', 'passed', 'failed',
                          'failed_tests', 'check', 'check_output'):
                    if k in o:
                        print('    %s: %s' % (k, str(o[k])[:500].replace('\n', '\n        ')), flush=True)


if __name__ == '__main__':
    main()
