"""Worker process: runs a slice of a batch, or one replay.

argv: PROP MODE TIER SEED START STEP COUNT DEADLINE_S OUT   | replay FILE OUT
"""
import faulthandler
import gc
import json
import os
import resource
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import seams, simfs         # noqa: E402
seams.install()
simfs.install()
seams.set_ok = True
os.environ['TZ'] = 'UTC'
time.tzset()

from sim import core, adapter, world        # noqa: E402
adapter.bind()
from sim import props                # noqa: E402


MEMORY = 4 << 30


def setup(mode):
    # the documents are tiny: whoever needs this much does not end
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    src = os.environ.get('SIM_PKG')
    if src and not core.avb_dir().startswith(src):
        raise core.HarnessError('avb imported from %s, not %s' % (core.avb_dir(), src))
    if mode == 'ext' and not adapter.avb.file.READERS:
        raise core.HarnessError('the compiled reader is not there')
    if mode == 'pure' and adapter.avb.file.READERS:
        raise core.HarnessError('unexpected compiled reader')
    core.PRISTINE.append(seams.Pristine())
    world.load_samples()


def run(prop, case, mode, trace=False):
    seams.begin(case.get('seed', 0))
    # collections happen where a run asks for them, not where the process happens to be
    # (PyPy: what is not asked for happens when the nursery, emptied here, is full: see check.py)
    gc.collect(*([0] if mode == 'pure' else []))
    gc.disable()
    return core.execute(prop, case, mode, trace)


class Out(object):
    def __init__(self, path):
        self.f = open(path, 'a')

    def put(self, **kw):
        self.f.write(json.dumps(kw) + '\n')
        self.f.flush()


class Alarm(BaseException):
    pass


def on_alarm(*a):
    raise core.StepLimit('wall')


def batch(name, mode, tier, seed, start, step, count, deadline, out):
    prop = props.get(name)
    setup(mode)
    end = time.monotonic() + deadline
    signal.signal(signal.SIGALRM, on_alarm)
    prop.begin() if hasattr(prop, 'begin') else None
    states = set()
    counts = {}
    n = 0
    t0 = time.monotonic()
    last = 0
    for i in range(start, count, step):
        case = prop.generate(core.rng_for('case', seed, name, mode, i), i, tier)
        now = time.monotonic()
        if now - last > 0.2 or n < 2 or getattr(prop, 'fragile', False):
            out.put(t='at', i=i)
            last = now
        signal.setitimer(signal.ITIMER_REAL, prop.wall_limit)
        env, v = run(prop, case, mode)
        signal.setitimer(signal.ITIMER_REAL, 0)
        n += 1
        for k, x in env.counts.items():
            counts[k] = counts.get(k, 0) + x
        states |= env.states
        out.put(t='run', i=i, d=env.digest(), nt=env.nontrivial, e=env.events)
        if v is not None:
            out.put(t='found', i=i, kind=v.kind, detail=v.detail)
            kind = v.kind

            def test(c):
                signal.setitimer(signal.ITIMER_REAL, prop.wall_limit)
                try:
                    e2, v2 = run(prop, c, mode)
                except Exception:
                    return False
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                return v2 is not None and v2.kind == kind
            small, steps = core.minimise(case, test, budget=25.0) if kind != 'does not end' else (case, 0)
            env, v = run(prop, small, mode, trace=True)
            if v is None:
                small = case
                env, v = run(prop, small, mode, trace=True)
            out.put(t='violation', i=i, case=small, original=case, kind=(v or core.Violation(kind)).kind,
                    detail=v.detail if v else 'seen once, not again in the same process', digest=env.digest(), trace=env.trace[-400:],
                    steps=steps)
            break
        if time.monotonic() > end:
            out.put(t='soft_stop', i=i)
            break
    out.put(t='done', n=n, counts=counts, states=[s.hex() for s in sorted(states)], wall=time.monotonic() - t0,
            extra=getattr(prop, 'extra', {}), known=sorted(getattr(prop, 'known', ())))


def replay(path, out):
    r = json.load(open(path))
    prop = props.get(r['property'])
    setup(r['mode'])
    prop.begin() if hasattr(prop, 'begin') else None
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, prop.wall_limit)
    env, v = run(prop, r['case'], r['mode'], trace=True)
    signal.setitimer(signal.ITIMER_REAL, 0)
    out.put(t='replayed', kind=v.kind if v else None, detail=v.detail if v else None, digest=env.digest(),
            trace=env.trace[-400:])


def digests(name, mode, tier, seed, start, step, count, out):
    """event digests only, for the determinism test"""
    prop = props.get(name)
    setup(mode)
    prop.begin() if hasattr(prop, 'begin') else None
    for i in range(start, count, step):
        case = prop.generate(core.rng_for('case', seed, name, mode, i), i, tier)
        env, v = run(prop, case, mode)
        out.put(i=i, d=env.digest(), v=v.kind if v else None)


if __name__ == '__main__':
    faulthandler.enable()
    a = sys.argv[1:]
    out = Out(a[-1])
    try:
        if a[0] == 'replay':
            replay(a[1], out)
        elif a[0] == 'digests':
            digests(a[1], a[2], a[3], int(a[4]), int(a[5]), int(a[6]), int(a[7]), out)
        else:
            batch(a[0], a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]), out)
    except BaseException as e:
        import traceback
        out.put(t='error', detail=traceback.format_exc()[-3000:])
        sys.exit(2)
    os._exit(0)
