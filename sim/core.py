"""Runs, violations, replay and minimisation: the part every property shares.

A case is a JSON value; one run is a pure function of (case, code under test).
"""
import hashlib
import json
import os
import random
import sys
import time
import traceback

from . import simfs, ref, adapter


class Violation(Exception):
    """the property does not hold; kind is stable across minimisation"""

    def __init__(self, kind, detail=''):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """the simulator itself cannot go on"""


class StepLimit(BaseException):
    """the run used up its step budget"""


class Env(object):
    """what one run records"""

    def __init__(self, mode='pure', trace=False):
        self.mode = mode
        self.hash = hashlib.sha256()
        self.counts = {}
        self.states = set()
        self.trace = [] if trace else None
        self.nontrivial = False
        self.events = 0

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def log(self, *items):
        self.events += 1
        s = repr(items)
        self.hash.update(s.encode('utf-8', 'backslashreplace'))
        if self.trace is not None:
            self.trace.append(s[:300])

    def state(self, b):
        h = hashlib.md5(b).digest()[:6]
        self.states.add(h)
        self.hash.update(h)

    def digest(self):
        return self.hash.hexdigest()[:16]


def derive(*parts):
    """a child seed, the same on every interpreter"""
    return int(hashlib.sha256(repr(parts).encode('utf-8')).hexdigest()[:15], 16)


def rng_for(*parts):
    return random.Random(derive(*parts))


_AVB_DIR = []
PRISTINE = []       # the package as it was imported


def as_imported():
    """nothing of the package was used before"""
    PRISTINE[0].restore()


def avb_dir():
    if not _AVB_DIR:
        _AVB_DIR.append(os.path.dirname(os.path.abspath(adapter.avb.__file__)))
    return _AVB_DIR[0]


def where(tb):
    """innermost frame of the code under test, as module:function"""
    last = ''
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr[0]).startswith(avb_dir()):
            last = '%s:%s' % (os.path.basename(fr[0]), fr[2])
    return last


def unexpected(what, e):
    """an exception of an operation that has to succeed"""
    return Violation('%s raised %s' % (what, type(e).__name__), '%s at %s' % (str(e)[:200], where(e.__traceback__)))


def execute(prop, case, mode, trace=False):
    """one run -> (env, Violation or None); other exceptions are harness errors"""
    env = Env(mode, trace)
    saved = (os.environ.get('TZ'), random.getstate())
    try:
        with adapter.hidden_output():
            prop.run(case, env)
        return env, None
    except Violation as v:
        env.log('violation', v.kind)
        return env, v
    except StepLimit:
        v = Violation('does not end', 'step budget used up')
        env.log('violation', v.kind)
        return env, v
    except (HarnessError, KeyboardInterrupt):
        raise
    except MemoryError:
        v = Violation('memory is exhausted', '')
        env.log('violation', v.kind)
        return env, v
    except RecursionError as e:
        v = unexpected('operation', e)
        env.log('violation', v.kind)
        return env, v
    except Exception as e:
        if isinstance(e, NotImplementedError) and 'simfs' in str(e):
            raise HarnessError(str(e))
        if where(e.__traceback__):
            v = unexpected('operation', e)
        else:
            fr = traceback.extract_tb(e.__traceback__)[-1]
            if getattr(e, 'harness', False):
                raise HarnessError(repr(e))
            # what the code returned could not be used as documented
            v = Violation('result cannot be used: %s' % type(e).__name__, '%s at %s:%s:%d' % (
                str(e)[:200], os.path.basename(fr[0]), fr[2], fr[1]))
        env.log('violation', v.kind)
        return env, v
    finally:
        simfs.ACTIVE[0] = None
        random.setstate(saved[1])
        if os.environ.get('TZ') != saved[0]:
            set_tz(saved[0] or 'UTC')


def set_tz(tz):
    os.environ['TZ'] = tz
    time.tzset()


# --------------------------------------------------------------------------
# minimisation: ops and faults are dropped, numbers reduced

LISTS = ('ops', 'ops2', 'faults', 'misc', 'threads', 'switches', 'edits', 'cuts', 'twins', 'turns', 'docs')
NUMBERS = ('size', 'nmobs')


def candidates(case):
    for key in LISTS:
        ops = case.get(key)
        if not isinstance(ops, list) or not ops:
            continue
        n = len(ops)
        step = max(1, n // 2)
        while True:
            for i in range(0, n, step):
                c = dict(case)
                c[key] = ops[:i] + ops[i + step:]
                yield c
            if step == 1:
                break
            step //= 2
        if isinstance(ops[0], dict):
            for t in range(n):
                for x in candidates(ops[t]):
                    c = dict(case)
                    c[key] = ops[:t] + [x] + ops[t + 1:]
                    yield c
    for key in NUMBERS:
        v = case.get(key)
        if isinstance(v, int) and v > 0:
            for w in sorted({0, v // 2, v - 1}):
                c = dict(case)
                c[key] = w
                yield c
    for key, simple in (('perm', False), ('buffering', 8192), ('short', False), ('big', False), ('long', None), ('gc', False), ('spell', False), ('sample', 0)):
        if key in case and case[key] != simple:
            c = dict(case)
            c[key] = simple
            yield c


def minimise(case, test, budget=40.0):
    """smallest case found within the time budget for which test(case) is true"""
    end = time.monotonic() + budget
    progress = True
    steps = 0
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(case):
            if time.monotonic() > end:
                break
            steps += 1
            if test(c):
                case = c
                progress = True
                break
    return case, steps


def dump_json(path, obj):
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
    os.replace(tmp, path)
