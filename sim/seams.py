"""Clock and randomness under the simulator's control.

install() replaces the process-wide sources (before the code under test is
imported); begin(seed) starts a run with a clock and entropy of its own.
"""
import datetime as _dt
import hashlib
import os
import random
import sys
import threading
import time as _time
import uuid
import weakref

_real_datetime = _dt.datetime
_real = {}


class Clock(object):
    def __init__(self):
        self.now = 1500000000.0
        self.tick = 0.0          # advance of every reading
        self.reads = 0
        self.jumps = []          # additional offsets by reading number

    log = None               # what readings gave, while somebody asks

    def read(self):
        self.reads += 1
        self.now += self.tick
        if self.jumps:
            self.now += self.jumps.pop(0)
        if self.log is not None:
            self.log.append(self.now)
        return self.now


CLOCK = Clock()


SCHEDULER = [None]      # who decides which thread runs, while several do
LOCKS = []


class Lock(object):
    """a lock of the code under test: whoever waits for it lets the scheduler run the others"""

    def __init__(self, again=False):
        self.again = again
        self.owner = None
        self.n = 0
        LOCKS.append(weakref.ref(self))

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.again and self.owner == me):
            s = SCHEDULER[0]
            if not blocking or timeout >= 0 and (s is None or self.owner == me):
                return False
            if s is None or self.owner == me:
                raise RuntimeError('deadlock')
            s.wait()
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if not self.n:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Entropy(object):
    def __init__(self, seed=0):
        self.seed = seed
        self.n = 0

    def read(self, size):
        out = b''
        while len(out) < size:
            out += hashlib.sha256(('%s:%d' % (self.seed, self.n)).encode()).digest()
            self.n += 1
        return out[:size]


ENTROPY = [Entropy()]


class _Meta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class SimDateTime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(CLOCK.read(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime(1970, 1, 1) + _dt.timedelta(seconds=CLOCK.read())

    @classmethod
    def today(cls):
        return cls.now()

    def __new__(cls, *a, **kw):
        return _real_datetime.__new__(_real_datetime, *a, **kw)


for _n in ('fromtimestamp', 'utcfromtimestamp', 'strptime', 'combine', 'fromordinal', 'fromisoformat'):
    if hasattr(_real_datetime, _n):
        setattr(SimDateTime, _n, staticmethod(getattr(_real_datetime, _n)))
SimDateTime.__name__ = SimDateTime.__qualname__ = 'datetime'


def install():
    if _real:
        return
    _real['time'] = _time.time
    _dt.datetime = SimDateTime

    _time.time = lambda: CLOCK.read()
    _time.time_ns = lambda: int(CLOCK.read() * 10 ** 9)
    for name in ('localtime', 'gmtime', 'ctime'):
        def mk(real):
            def fn(*a):
                if not a or a[0] is None:
                    return real(CLOCK.read())
                return real(*a)
            return fn
        setattr(_time, name, mk(getattr(_time, name)))
    real_strftime = _time.strftime
    _time.strftime = lambda fmt, *a: real_strftime(fmt, *(a or (_time.localtime(),)))
    urandom = lambda n: ENTROPY[0].read(n)
    os.urandom = urandom
    random._urandom = urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: ENTROPY[0].read(n)
    # time based identifiers take their parts from the same sources
    for name in ('_generate_time_safe', '_UuidCreate'):
        if hasattr(uuid, name):
            setattr(uuid, name, None)
    uuid._node = 0x020000000001
    uuid.getnode = lambda: 0x020000000001
    for name in ('Lock', 'RLock'):
        def mk(real, again):
            def fn():
                if sys._getframe(1).f_globals.get('__name__', '').split('.')[0] == 'avb':
                    return Lock(again)
                return real()
            return fn
        setattr(threading, name, mk(getattr(threading, name), name == 'RLock'))
    import secrets
    secrets.token_bytes = lambda n=32: ENTROPY[0].read(n or 32)


def begin(seed):
    CLOCK.now = 1500000000.0
    CLOCK.tick = 0.0
    CLOCK.reads = 0
    CLOCK.jumps = []
    CLOCK.log = None
    ENTROPY[0] = Entropy(seed)
    uuid._last_timestamp = None
    for r in LOCKS[:]:
        k = r()
        if k is None:
            LOCKS.remove(r)
        else:
            k.owner, k.n = None, 0
    random.seed(seed)


class Pristine(object):
    """what the modules and classes of the package hold right after they were imported, to go back to: what is set up
    at its first use is then set up again, whatever ran in this process before"""

    KEEP = ('__dict__', '__weakref__', '__builtins__', '__doc__', '__loader__', '__spec__', '__abstractmethods__')

    def __init__(self, name='avb'):
        self.spaces = []
        self.boxes = {}
        self.cached = []
        seen = set()
        for n, m in sorted(sys.modules.items()):
            if m is None or n != name and not n.startswith(name + '.'):
                continue
            self.space(m, seen, n)

    def space(self, obj, seen, name):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        held = {k: v for k, v in vars(obj).items() if k not in self.KEEP}
        self.spaces.append((obj, held))
        for v in held.values():
            self.box(v)
            if isinstance(v, type) and getattr(v, '__module__', '').startswith('avb'):
                self.space(v, seen, name)

    def box(self, v):
        if hasattr(v, 'cache_clear'):
            self.cached.append(v)
        if type(v) not in (dict, list, set, bytearray) or id(v) in self.boxes:
            return
        self.boxes[id(v)] = (v, v.copy())
        for x in v.values() if type(v) is dict else v:
            self.box(x)

    def restore(self):
        for obj, held in self.spaces:
            now = vars(obj)
            for k in [k for k in now if k not in held and k not in self.KEEP]:
                try:
                    delattr(obj, k)
                except (AttributeError, TypeError):
                    pass
            for k, v in held.items():
                if now.get(k, self) is not v:
                    try:
                        setattr(obj, k, v)
                    except (AttributeError, TypeError):
                        pass
        for v, was in self.boxes.values():
            if type(v) is bytearray or type(v) is list:
                if v != was:
                    v[:] = was
            elif v != was:
                v.clear()
                v.update(was)
            elif type(v) is dict and list(v) != list(was):
                v.clear()
                v.update(was)
        for f in self.cached:
            f.cache_clear()
