"""Properties of the environment: readers, clocks, time zones, identities, threads."""
import datetime
import gc
import hashlib
import os
import random
import sys
import threading
import time

from . import simfs, ref, adapter, seams, core
from .core import Violation, HarnessError, StepLimit, derive, rng_for, unexpected, where
from .props_doc import Prop, EDIT_OPS
from .props_coll import CollSession, MOB_TYPES
from .session import Session, DIR, new_fs, open_doc, other, gen_ops, mark_disk
from .world import Doc, build_model, file_bytes, gen_source, clone_model


# --------------------------------------------------------------------------

def strict(a, b, path, out, pairs):
    """values two readers gave for one field; objects are compared later, in pairs"""
    if len(out) > 3:
        return
    if getattr(type(a), 'class_id', None) or getattr(type(b), 'class_id', None):
        if type(a) is not type(b):
            out.append('%s: %s and %s' % (path, type(a).__name__, type(b).__name__))
        else:
            pairs.append((a, b, path))
        return
    if hasattr(type(a), 'propertydefs') and not isinstance(a, list):
        if type(a) is not type(b):
            out.append('%s: %s and %s' % (path, type(a).__name__, type(b).__name__))
            return
        strict_fields(a, b, path, out, pairs)
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            out.append('%s: %s and %s' % (path, type(a).__name__, type(b).__name__))
        elif len(a) != len(b):
            out.append('%s: %d and %d entries' % (path, len(a), len(b)))
        else:
            for k, (x, y) in enumerate(zip(a, b)):
                strict(x, y, '%s[%d]' % (path, k), out, pairs)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        strict_dict(a, b, path, out, pairs)
        return
    if isinstance(a, adapter.avb.mobid.MobID) and isinstance(b, adapter.avb.mobid.MobID):
        if bytes(a.bytes_le) != bytes(b.bytes_le):
            out.append('%s: %s and %s' % (path, a, b))
        return
    if isinstance(a, float) and isinstance(b, float):
        if repr(a) != repr(b):
            out.append('%s: %r and %r' % (path, a, b))
        return
    if (a != b) or isinstance(a, (bytes, bytearray)) != isinstance(b, (bytes, bytearray)):
        out.append('%s: %s and %s' % (path, repr(a)[:60], repr(b)[:60]))


def strict_dict(a, b, path, out, pairs):
    if list(a.keys()) != list(b.keys()) and (hasattr(a, 'class_id') or set(a) != set(b)):
        out.append('%s: entries %s and %s' % (path, list(a.keys())[:8], list(b.keys())[:8]))
        return
    for k in a:
        strict(a[k], b[k], '%s[%r]' % (path, k), out, pairs)


def strict_fields(a, b, path, out, pairs):
    for p in type(a).propertydefs:
        has = hasattr(a, p.name), hasattr(b, p.name)
        if has[0] != has[1]:
            out.append('%s.%s: present in one only' % (path, p.name))
        elif has[0]:
            strict(getattr(a, p.name), getattr(b, p.name), '%s.%s' % (path, p.name), out, pairs)


def compare_live(fa, fb, rng=None):
    """two open documents, object by object"""
    out = []
    pairs = [(fa.content, fb.content, 'root')]
    seen = {}
    back = {}
    hold = []
    n = 0
    while pairs and not out:
        k = rng.randrange(len(pairs)) if rng else -1
        a, b, path = pairs.pop(k)
        if id(a) in seen or id(b) in back:
            if seen.get(id(a)) is not b or back.get(id(b)) is not a:
                out.append('%s: shared objects differ' % path)
            continue
        seen[id(a)] = b
        back[id(b)] = a
        hold.append((a, b))
        n += 1
        if type(a) is not type(b):
            out.append('%s: %s and %s' % (path, type(a).__name__, type(b).__name__))
            break
        here = adapter.class_id(a)
        if isinstance(a, dict):
            strict_dict(a, b, here, out, pairs)
        elif isinstance(a, list):
            x, y = list(a), list(b)
            if len(x) != len(y):
                out.append('%s: %d and %d entries' % (here, len(x), len(y)))
            for i, (p, q) in enumerate(zip(x, y)):
                strict(p, q, '%s[%d]' % (here, i), out, pairs)
        else:
            strict_fields(a, b, here, out, pairs)
    return out, n


class A04(Prop):
    ID = 'A04'
    modes = {'ext': 1.0}
    quick = {'ext': 1800}
    rule = ('a run opens the same generated bytes twice in one process, with the compiled reader and with the Python '
            'reader, applies the same random history of reads, edits, collections, saves and reopens to both and '
            'compares objects, fields, values, references and saved bytes; non-trivial when at least five objects were '
            'compared')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, 40))
        c['order'] = rng.choice(['little', 'little', 'little', 'big'])
        c['src'] = 'bytes'
        c['stream'] = rng.random() < 0.15
        c['ops'] = gen_ops(rng, EDIT_OPS + [('read', 3), ('drop', 1), ('hold', 2), ('gc', 0.5), ('save', 2), ('reopen', 1.5),
                                            ('compare', 2)], rng.choice([0, 0, 3, 8, 16]))
        if rng.random() < 0.1:
            # without the extensions that hold the mob ids; such a document can be read
            c['bare'] = True
            c['ops'] = gen_ops(rng, [('read', 3), ('drop', 1), ('hold', 2), ('gc', 0.5), ('compare', 2)], rng.choice([0, 3, 8]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            s = []
            quiet = core.Env(env.mode)
            for mode, e in (('ext', env), ('pure', quiet)):
                doc = open_doc(e, case, fs, mode + '.avb', mode)
                mark_disk(doc)
                s.append(PairSession(e, case, doc, mode))
            x, y = s
            if not x.doc.use_ext or y.doc.use_ext:
                raise HarnessError('readers')
            env.nontrivial = self.compare(env, x, y, rng_for('first', case['seed'])) >= 5
            self.saves(env, x, y, 'little')
            self.saves(env, x, y, 'big')
            for op in case['ops']:
                if op[0] == 'compare':
                    self.compare(env, x, y, rng_for('op', op[1]))
                    continue
                res = []
                for k in s:
                    seams.ENTROPY[0] = seams.Entropy(op[1])
                    seams.CLOCK.now = 1500000000.0
                    random.seed(op[1])
                    try:
                        k.step(op)
                        res.append(None)
                    except Violation as v:
                        res.append(v)
                if res[0] or res[1]:
                    if bool(res[0]) != bool(res[1]):
                        v = res[0] or res[1]
                        raise Violation('an operation differs between the readers', '%s with the %s reader: %s' % (
                            op[0], 'compiled' if res[0] else 'Python', v))
                    # wrong with both alike: another property's matter
                    env.count('both readers alike wrong')
                    return
                if x.last_bytes != y.last_bytes:
                    raise Violation('saved bytes differ between the readers', 'after ' + op[0])
            self.compare(env, x, y, rng_for('end', case['seed']))
            self.saves(env, x, y, rng_for('end', case['seed']).choice(['little', 'big']))
            x.doc.f.close()
            y.doc.f.close()

    def compare(self, env, x, y, rng):
        out, n = compare_live(x.doc.f, y.doc.f, rng if rng.random() < 0.6 else None)
        if out:
            raise Violation('the readers disagree', out[0])
        if (x.doc.f.creator_version, x.doc.f.last_save) != (y.doc.f.creator_version, y.doc.f.last_save):
            raise Violation('the readers disagree', 'header')
        env.log('compared', n)
        env.count('objects compared', n)
        return n

    def saves(self, env, x, y, order):
        data = []
        for k in (x, y):
            path = DIR + '/s_%s.avb' % k.tag
            try:
                k.doc.f.write(path, order)
            except Exception as e:
                if not k.case.get('bare'):
                    raise
                data.append(type(e).__name__.encode('ascii'))
                continue
            data.append(k.fs.get(path))
        if data[0] != data[1]:
            n = next((i for i, (a, b) in enumerate(zip(*data)) if a != b), min(map(len, data)))
            raise Violation('saved bytes differ between the readers', '%s order at byte %d, lengths %d and %d' % (
                order, n, len(data[0]), len(data[1])))
        env.state(data[0])


class PairSession(Session):
    def __init__(self, env, case, doc, tag):
        Session.__init__(self, env, case, doc)
        self.tag = tag
        self.last_bytes = None

    def do_save(self, rng):
        self.save_to(DIR + '/%s_%d.avb' % (self.tag, rng.randint(0, 1)), rng.choice(['little', 'big']))

    def saved_model(self, m, data):
        self.last_bytes = data


# --------------------------------------------------------------------------

ZONES = [
    'UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'AEST-10AEDT,M10.1.0,M4.1.0/3',
    '<+1030>-10:30<+11>-11,M10.1.0,M4.1.0', '<+0545>-5:45', '<-0330>3:30<-0230>,M3.2.0,M11.1.0', '<+14>-14', '<-12>12',
    'IST-1GMT0,M10.5.0,M3.5.0/1', '<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45', '<-03>3<-01>1,M3.5.0/-1,M10.5.0/0',
    'XXX-5:30YYY-7:30,J60/12,J300/12', 'AAA3BBB,60/0,300/23',
]
NAMED = ['Europe/London', 'America/New_York', 'Pacific/Apia', 'Australia/Lord_Howe', 'Africa/Casablanca', 'Asia/Tehran',
         'Europe/Moscow', 'America/Caracas', 'Asia/Pyongyang', 'Antarctica/Troll', 'America/Sao_Paulo', 'Asia/Kathmandu']


def zones():
    return ZONES + [z for z in NAMED if os.path.exists('/usr/share/zoneinfo/' + z)]


def offset(t):
    return time.localtime(t).tm_gmtoff


_TRANSITIONS = {}


def transitions(zone):
    """instants at which the offset of the current zone changes, found by probing the C library"""
    if zone not in _TRANSITIONS:
        out = []
        step = 20 * 86400
        for years in ((1, 5), (27, 33), (40, 43), (60, 69)):
            a = years[0] * 31556952
            o = offset(a)
            while a < years[1] * 31556952:
                b = a + step
                p = offset(b)
                if p != o:
                    lo, hi = a, b
                    while hi - lo > 1:
                        mid = (lo + hi) // 2
                        if offset(mid) == o:
                            lo = mid
                        else:
                            hi = mid
                    out.append(hi)
                a, o = b, p
        _TRANSITIONS[zone] = out
    return _TRANSITIONS[zone]


def instant(rng, zone):
    r = rng.random()
    ts = transitions(zone)
    if ts and r < 0.6:
        t = rng.choice(ts) + rng.choice([-7200, -3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7199, 7200,
                                         rng.randint(-8000, 8000), rng.randint(-90000, 90000)])
    elif r < 0.75:
        t = rng.choice([0, 1, 86399, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32 - 2, 10 ** 9])
    else:
        t = rng.randrange(2 ** 32)
    # the neighbourhood of the limits has no local time in some zones
    return min(max(t, 86400 * 2), 2 ** 32 - 86400 * 2) if offset(min(max(t, 0), 2 ** 32 - 1)) or r > 0.97 else min(max(t, 0), 2 ** 32 - 1)


def local(t, us=0):
    """the local time of an instant, by the C library"""
    lt = time.localtime(t)
    d = seams._real_datetime(lt.tm_year, lt.tm_mon, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec, us)
    # the second time it occurs
    for back in (1800, 3600, 5400, 7200, 10800, 86400, 82800, 7200 * 2):
        if t >= back and time.localtime(t - back)[:6] == lt[:6]:
            return d.replace(fold=1)
    return d


class E01(Prop):
    ID = 'E01'
    quick = {'pure': 3750, 'ext': 1050}
    rule = ('a run opens, edits, saves and reopens documents in a random local time zone (fixed offsets, both hemispheres, '
            'half-hour and reversed daylight saving, historic offset changes), changes the zone between sessions, sets times '
            'near transitions and 32 bit limits, and makes new documents and mobs while the simulated clock ticks, jumps '
            'and stands at transitions; non-trivial when at least three times were set or made')
    simulated_time = ('instants from 1970 to 2106; the clock jumps between them, and within one operation by up to 2 h')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, 14), mobs=(1, 4))
        c['src'] = 'bytes'
        c['ops'] = gen_ops(rng, [('set', 6), ('setlast', 1.5), ('save', 3), ('reopen', 3), ('clock', 3), ('newmob', 4),
                                 ('newdoc', 1.5), ('copymob', 1.5), ('read', 2), ('gc', 0.5), ('edit', 1)],
                           rng.choice([3, 6, 12, 20]))
        return c

    def run(self, case, env):
        rng = rng_for('tz', case['seed'])
        fs = new_fs(env, case)
        zone = rng.choice(zones())
        core.set_tz(zone)
        adapter.FROM_STAMP[0] = local
        try:
            self.session(case, env, fs, rng, zone)
        finally:
            adapter.FROM_STAMP[0] = adapter.from_stamp

    def session(self, case, env, fs, rng, zone):
        with simfs.active(fs):
            model = build_model(case)
            for i in sorted(model.objs):
                d = model.objs[i]
                if d['_c'] == 'CMPO':
                    for k in ('last_modified', 'creation_time'):
                        if k in d:
                            d[k] = instant(rng, zone)
            model.last_save = instant(rng, zone)
            doc = Doc(env, case, fs, DIR + '/src.avb')
            doc.time_of = instant_of
            data, spans, refmap = file_bytes(case, model)
            doc.open_bytes(model, data, refmap)
            mark_disk(doc)
            s = TimeSession(env, case, doc)
            s.zone = zone
            env.count('zone:' + zone)
            for op in case['ops']:
                s.step(op)
            s.do_read(rng)
            s.save_to(DIR + '/end.avb', rng.choice(['little', 'big']))
            s.do_reopen(rng_for('end', case['seed']))
            s.do_read(rng)
            doc.f.close()
            env.nontrivial = s.times >= 3


def instant_of(d):
    t = d.timestamp()
    return int(t // 1)


class TimeSession(CollSession):
    def __init__(self, *a):
        CollSession.__init__(self, *a)
        self.times = 0
        self.zone = None

    def mobs(self):
        return [i for i in self.doc.reach() if self.doc.exp.objs[i]['_c'] == 'CMPO']

    def do_edit(self, rng):
        self.doc.edit(rng, rng.choice(['nested', 'attr', 'list']))

    def do_set(self, rng):
        ids = self.mobs()
        if not ids:
            return
        i = rng.choice(ids)
        d = self.doc.exp.objs[i]
        k = rng.choice(['last_modified', 'creation_time'])
        if k not in d:
            return
        t = instant(rng, self.zone)
        v = local(t, rng.choice([0, 0, 1, 500000, 999999]))
        o = self.doc.live(i, rng)
        setattr(o, k, v)
        d[k] = t
        del o
        if rng.random() < 0.3:
            gc.collect()
        got = getattr(self.doc.live(i, rng), k)
        if (got, got.fold) != (v, v.fold):
            raise Violation('a time that was set reads differently', '%s, set %s in %s' % (got, v, self.zone))
        self.env.log('set', k, t)
        self.times += 1

    def do_setlast(self, rng):
        t = instant(rng, self.zone)
        self.doc.f.last_save = local(t, rng.choice([0, 0, 999999]))
        self.doc.exp.last_save = t

    def saved_model(self, m, data):
        CollSession.saved_model(self, m, data)
        self.check_header(m, self.doc.exp.last_save)

    def check_header(self, m, t):
        if m.last_save != t:
            raise Violation('last save time changed', '%d, expected %d in %s' % (m.last_save, t, self.zone))
        want = time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(t))
        if m.last_save_str != want:
            raise Violation('last save text differs', '%s, expected %s in %s' % (m.last_save_str, want, self.zone))

    def save_to(self, path, order):
        data = self.doc.save(path, order)
        m = self.doc.read_back(data, order)
        self.saved_model(m, data)
        self.env.count('saves')
        self.env.state(data)
        self.last = path
        return data

    def do_reopen(self, rng):
        """close, move to another zone, open what was saved"""
        if self.last is None:
            return
        if rng.random() < 0.6:
            self.zone = rng.choice(zones())
            self.doc.f.close()
            core.set_tz(self.zone)
            self.env.count('zone:' + self.zone)
            self.env.count('fault:zone change')
        CollSession.do_reopen(self, rng)
        self.doc.time_of = instant_of

    def do_read(self, rng):
        doc = self.doc
        doc.check_dump(rng, 'times differ')
        if instant_of(doc.f.last_save) != doc.exp.last_save:
            raise Violation('last save time changed', '%s in %s' % (doc.f.last_save, self.zone))
        for i in self.mobs():
            d = doc.exp.objs[i]
            o = doc.live(i)
            for k in ('last_modified', 'creation_time'):
                if k in d:
                    v = getattr(o, k)
                    w = local(d[k])
                    if v.replace(microsecond=0) != w or v.fold != w.fold:
                        raise Violation('local time differs', '%s.%s is %s, expected %s in %s' % (d['_c'], k, v, w, self.zone))

    def do_clock(self, rng):
        c = seams.CLOCK
        r = rng.random()
        if r < 0.5:
            c.now = float(min(instant(rng, self.zone), 2 ** 32 - 10 ** 6)) + rng.choice([0, 0.25, 0.5, 0.75])
            c.jumps = []        # none may lead to before the first second there is
        elif r < 0.75:
            c.tick = rng.choice([0.0, 0.0, 0.25, 1.0, 0.5])
        else:
            c.jumps = [rng.choice([0, 1.0, -1.0, 3600.0, -3600.0, 7200.0]) for n in range(rng.randint(1, 6))]
            c.now = max(c.now, 10.0 ** 6)
        self.env.count('fault:clock change')

    def during(self, fn):
        """-> (result, seconds the clock showed meanwhile)"""
        c = seams.CLOCK
        c.log = seen = []
        try:
            o = fn()
        finally:
            c.log = None
        return o, set(int(t // 1) for t in seen) or {int(c.now // 1)}

    def stamp_ok(self, v, seen, what):
        t = instant_of(v)
        if t not in seen:
            raise Violation('a new %s does not carry the time of the clock' % what, '%s (%d), the clock showed %s in %s' % (
                v, t, sorted(seen), self.zone))
        w = local(t)
        if v.replace(microsecond=0) != w or v.fold != w.fold:
            raise Violation('a new %s does not carry the local time' % what, '%s, expected %s in %s' % (v, w, self.zone))
        self.times += 1

    def do_newmob(self, rng):
        doc = self.doc
        m, seen = self.during(lambda: doc.f.create.Composition(mob_type=rng.choice(sorted(MOB_TYPES.values()))))
        self.stamp_ok(m.creation_time, seen, 'mob')
        self.stamp_ok(m.last_modified, seen, 'mob')
        t = self.adopt(m)
        doc.f.content.add_mob(m)
        doc.exp.objs[doc.exp.root]['items'].append({'mob': t, 'x': -30000, 'y': -30000, 'keyframe': 0, 'user_placed': True})
        doc.touch()
        doc.edits += 1
        self.env.count('mobs made')

    def adopt(self, o):
        exp = self.doc.exp
        dm = adapter.Dumper(instant_of)
        dm.next = max(exp.objs) + 1
        i = dm.refid(o)
        dm.run([])
        for t, d in dm.model.objs.items():
            exp.objs[t] = d
        return i

    def do_newdoc(self, rng):
        f, seen = self.during(lambda: adapter.avb.file.AVBFile())
        self.stamp_ok(f.last_save, seen, 'document')
        want = instant_of(f.last_save)
        path = DIR + '/fresh.avb'
        f.write(path, rng.choice(['little', 'big']))
        self.check_header(ref.decode_file(self.fs.get(path)), want)
        self.env.count('documents made')
        f.close()

    def do_copymob(self, rng):
        ids = self.mobs()
        if not ids:
            return
        i = rng.choice(ids)
        g = self.doc.f if rng.random() < 0.4 else adapter.avb.file.AVBFile()
        c = self.doc.live(i, rng).copy(g)
        d = self.doc.exp.objs[i]
        for k in ('last_modified', 'creation_time'):
            if k in d and instant_of(getattr(c, k)) != d[k]:
                raise Violation('a copy has another time', '%s is %s, expected %d' % (k, getattr(c, k), d[k]))
        if g is not self.doc.f:
            g.content.add_mob(c)
            path = DIR + '/copy.avb'
            g.write(path, rng.choice(['little', 'big']))
            m = ref.decode_file(self.fs.get(path))
            got = [x for x in m.objs.values() if x['_c'] == 'CMPO' and x['mob_id'] == d['mob_id']]
            if not any(all(x.get(k) == d.get(k) for k in ('last_modified', 'creation_time')) for x in got):
                raise Violation('a copy has another time', 'after saving')


# --------------------------------------------------------------------------

def rank(rows):
    """rank over GF(2) of the differences to the first row"""
    base = {}
    for r in rows[1:]:
        r ^= rows[0]
        while r:
            k = r.bit_length()
            if k not in base:
                base[k] = r
                break
            r ^= base[k]
    return len(base)


class E02(Prop):
    ID = 'E02'
    quick = {'pure': 2400, 'ext': 600}
    rule = ('a run makes mobs, bins, bare ids and documents in several documents while the clock stands still or is set '
            'back, the shared random generator is reseeded before every call, and in forked processes that share all '
            'state at the instant of the fork; only the simulated entropy device differs. All ids are compared, their form '
            'and bit variety checked, and read back from saved files; non-trivial when at least twenty ids were made')
    assumptions = ['the operating system entropy source gives every process its own bytes (simulated: a hash of seed, '
                   'process and counter)']
    simulated_time = 'the clock stands still or is set back by the run'

    def generate(self, rng, index, tier):
        return {'seed': rng.getrandbits(40), 'ops': gen_ops(rng, [('mobid', 3), ('mob', 4), ('doc', 2), ('fork', 0.6),
                                                                  ('reseed', 4), ('clock', 3), ('save', 1.5), ('many', 1.5),
                                                                  ('copy', 0.7), ('threads', 0.5)],
                                                            rng.choice([6, 15, 30, 60]))}

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            s = IdSession(env, case, fs)
            for name, seed in case['ops']:
                env.count('op:' + name)
                getattr(s, 'do_' + name)(rng_for('op', seed))
            s.do_save(rng_for('end', case['seed']))
            s.judge()
            env.log('ids', len(s.mobs), len(s.bins))
            env.count('identities made', len(s.mobs) + len(s.bins))
            env.nontrivial = len(s.mobs) + len(s.bins) >= 20


class IdSession(object):
    def __init__(self, env, case, fs):
        self.env, self.case, self.fs = env, case, fs
        self.mobs, self.bins = [], []
        self.forks = 0
        self.docs = []
        self.new_doc()

    def new_doc(self):
        f = adapter.avb.file.AVBFile()
        self.bins.append(f.content.uid)
        self.docs.append(f)

    def do_doc(self, rng):
        if rng.random() < 0.3:
            self.bins.append(rng.choice(self.docs).create.Bin().uid)
        else:
            self.new_doc()

    def do_mobid(self, rng):
        for n in range(rng.randint(1, 4)):
            self.mobs.append(bytes(adapter.avb.mobid.MobID.new().bytes_le))

    def make_mob(self, rng):
        f = rng.choice(self.docs)
        m = f.create.Composition(mob_type=rng.choice(sorted(MOB_TYPES.values())))
        self.mobs.append(bytes(m.mob_id.bytes_le))
        f.content.add_mob(m)

    def do_mob(self, rng):
        for n in range(rng.randint(1, 3)):
            self.make_mob(rng)

    def do_many(self, rng):
        f = rng.choice(self.docs)
        fixed = rng.getrandbits(30)
        for n in range(rng.choice([20, 60, 150])):
            random.seed(fixed)
            self.mobs.append(bytes(adapter.avb.mobid.MobID.new().bytes_le))
            if n % 4 == 0:
                random.seed(fixed)
                self.bins.append(f.create.Bin().uid)

    def do_reseed(self, rng):
        random.seed(rng.choice([0, 1, self.case['seed']]))
        self.env.count('fault:random state reset')

    def do_clock(self, rng):
        c = seams.CLOCK
        c.now = float(rng.choice([1500000000, 1500000000, 1400000000, 10 ** 7, max(c.now, 10 ** 7)]))
        c.tick = rng.choice([0.0, 0.0, 1.0, -1.0])
        import uuid
        if rng.random() < 0.5:
            uuid._last_timestamp = None
        self.env.count('fault:clock set back')

    def do_copy(self, rng):
        """copies keep the id they have: making them must not disturb later ones"""
        f, g = rng.choice(self.docs), rng.choice(self.docs)
        ms = list(f.content.mobs)
        if ms:
            m = rng.choice(ms)
            c = m.copy(g)
            if c.mob_id != m.mob_id:
                raise Violation('a copy has another id', '')

    def batch(self, rng, n):
        out = [[], []]
        random.seed(7)
        for k in range(n):
            out[0].append(bytes(adapter.avb.mobid.MobID.new().bytes_le).hex())
            m = self.docs[0].create.Composition(mob_type='MasterMob')
            out[0].append(bytes(m.mob_id.bytes_le).hex())
            f = adapter.avb.file.AVBFile()
            out[1].append(f.content.uid)
        return out

    def do_fork(self, rng):
        """sibling processes, equal in everything at their start"""
        import json
        n = rng.randint(1, 3)
        for k in range(rng.randint(2, 3)):
            self.forks += 1
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    seams.ENTROPY[0] = seams.Entropy('%s/process %d' % (self.case['seed'], self.forks))
                    data = json.dumps(self.batch(rng, n)).encode()
                    while data:
                        data = data[os.write(w, data):]
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            data = b''
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            os.close(r)
            status = os.waitpid(pid, 0)[1]
            if status:
                raise Violation('making identities fails in another process', 'status %d' % status)
            a, b = json.loads(data.decode())
            self.mobs += [bytes.fromhex(x) for x in a]
            self.bins += b
            self.env.count('fault:process forked')

    def do_threads(self, rng):
        out = []
        res = []

        def work():
            try:
                out.append(self.batch(rng, 1))
            except Exception as e:
                res.append(e)
        for k in range(3):
            t = threading.Thread(target=work)
            t.start()
            t.join()
        if res:
            raise unexpected('making an identity', res[0])
        for a, b in out:
            self.mobs += [bytes.fromhex(x) for x in a]
            self.bins += b

    def do_save(self, rng):
        f = rng.choice(self.docs)
        path = DIR + '/ids.avb'
        order = rng.choice(['little', 'big'])
        want = [bytes(m.mob_id.bytes_le) for m in f.content.mobs]
        uid = f.content.uid
        f.write(path, order)
        m = ref.decode_file(self.fs.get(path))
        root = m.objs[m.root]
        if root['uid'] != uid:
            raise Violation('an identity changed by saving', 'bin')
        if [m.objs[it['mob']]['mob_id'] for it in root['items']] != want:
            raise Violation('an identity changed by saving', 'mob')
        g = adapter.avb.file.AVBFile(path, use_ext=self.env.mode == 'ext')
        if g.content.uid != uid or [bytes(x.mob_id.bytes_le) for x in g.content.mobs] != want:
            raise Violation('an identity changed by reopening', '')
        for x in g.content.mobs:
            if adapter.avb.mobid.MobID(str(x.mob_id)) != x.mob_id:
                raise Violation('an identity changes when written as text', str(x.mob_id))
        g.close()

    def judge(self):
        for name, ids in (('mob', self.mobs), ('bin', self.bins)):
            if len(set(ids)) != len(ids):
                seen = set()
                dup = next(x for x in ids if x in seen or seen.add(x))
                raise Violation('two %ss have the same identity' % name, '%d of %d differ; %s' % (
                    len(set(ids)), len(ids), dup.hex() if isinstance(dup, bytes) else dup))
        for x in self.mobs:
            if len(x) != 32 or x[:12] != bytes.fromhex('060a2b340101010501010f20') or x[12:16] != b'\x13\0\0\0':
                raise Violation('a generated id is not well formed', x.hex())
            if not any(x[16:]):
                raise Violation('a generated id is not well formed', x.hex())
        for x in self.bins:
            if not isinstance(x, int) or not 0 < x < 1 << 64:
                raise Violation('a generated id is not well formed', repr(x))
        # ids that vary in too few bits collide sooner or later
        if len(self.mobs) >= 200:
            n = rank([int.from_bytes(x[16:], 'big') for x in self.mobs])
            self.env.count('bit variety checked')
            if n < 110:
                raise Violation('generated ids vary too little', 'mob ids span %d bits' % n)
        if len(self.bins) >= 130:
            n = rank(self.bins)
            if n < 58:
                raise Violation('generated ids vary too little', 'bin ids span %d bits' % n)


# --------------------------------------------------------------------------

class Stop(BaseException):
    """a thread of an abandoned run ends"""


class Context(object):
    """what one simulated thread sees of the world: its disk, clock, entropy and random state"""

    def __init__(self, seed, fs):
        self.fs = fs
        self.entropy = seams.Entropy(seed)
        self.clock = 1500000000.0
        self.random = random.Random(seed).getstate()

    def enter(self):
        simfs.ACTIVE[0] = self.fs
        seams.ENTROPY[0] = self.entropy
        seams.CLOCK.now = self.clock
        random.setstate(self.random)

    def leave(self):
        self.clock = seams.CLOCK.now
        self.random = random.getstate()


class Scheduler(object):
    """runs functions in real threads, one at a time; hands over after given numbers of source lines of the code under
    test (and returns from its functions), to the thread the schedule names"""

    def __init__(self, contexts, switches, returns=False, whole=False):
        self.whole = whole          # count operations instead of lines
        self.contexts = contexts
        self.n = len(contexts)
        self.sem = [threading.Semaphore(0) for k in range(self.n)]
        self.done = threading.Semaphore(0)
        self.alive = list(range(self.n))
        self.switches = switches
        self.k = 0
        self.returns = returns
        self.local_ = self.local
        self.over = False
        self.points = 0
        self.path = hashlib.md5()
        self.handed = 0
        self.cur = None
        self.dead = False
        self.dir = core.avb_dir()
        self.known = {}
        self.results = [None] * self.n
        self.next_quantum()

    def next_quantum(self):
        if self.k < len(self.switches):
            self.left, self.pick = self.switches[self.k]
            self.k += 1
        else:
            # each runs to its end
            self.left, self.pick, self.over = 1 << 60, 0, True
        self.quantum = self.left

    def hand_over(self):
        if self.dead:
            raise Stop()
        self.points += self.quantum - self.left
        me = self.cur
        to = self.alive[self.pick % len(self.alive)]
        self.next_quantum()
        if to == me:
            return
        self.handed += 1
        self.path.update(b'%d@%d;' % (to, self.points))
        self.contexts[me].leave()
        self.cur = to
        self.contexts[to].enter()
        self.sem[to].release()
        self.sem[me].acquire()
        if self.dead:
            raise Stop()

    def wait(self):
        """the running thread cannot go on before another one did something"""
        if self.dead:
            raise Stop()
        if len(self.alive) < 2:
            raise RuntimeError('deadlock')
        me = self.cur
        to = self.alive[(self.alive.index(me) + 1) % len(self.alive)]
        self.contexts[me].leave()
        self.cur = to
        self.contexts[to].enter()
        self.sem[to].release()
        self.sem[me].acquire()
        if self.dead:
            raise Stop()

    def importing(self, frame):
        """the interpreter holds a lock then"""
        while frame is not None:
            if frame.f_code.co_name == '<module>' and 'importlib' in (frame.f_back.f_code.co_filename if frame.f_back else ''):
                return True
            frame = frame.f_back
        return False

    def tracer(self, frame, event, arg):
        if self.over:
            return None
        code = frame.f_code
        mine = self.known.get(code)
        if mine is None:
            mine = self.known[code] = os.path.abspath(code.co_filename).startswith(self.dir)
        if not mine:
            return None
        return self.local_

    def local(self, frame, event, arg):
        if event == 'line' or event == 'return' and self.returns:
            self.left -= 1
            if self.left <= 0 and not self.importing(frame):
                self.hand_over()
        return self.local_

    def operation(self):
        """between two operations of a history"""
        if self.whole and not self.over:
            self.left -= 1
            if self.left <= 0:
                self.hand_over()

    def body(self, k, fn):
        self.sem[k].acquire()
        if self.dead:
            return
        if self.switches and not self.whole:
            sys.settrace(self.tracer)
        try:
            self.results[k] = fn()
        except Stop:
            return
        except BaseException as e:
            self.results[k] = e
        finally:
            sys.settrace(None)
        if self.dead:
            return
        self.contexts[k].leave()
        self.alive.remove(k)
        if self.alive:
            to = self.alive[self.pick % len(self.alive)]
            self.cur = to
            self.contexts[to].enter()
            self.sem[to].release()
        else:
            self.done.release()

    def run(self, fns):
        threads = [threading.Thread(target=self.body, args=(k, fn), daemon=True) for k, fn in enumerate(fns)]
        for t in threads:
            t.start()
        try:
            seams.SCHEDULER[0] = self
            self.cur = self.alive[0]
            self.contexts[self.cur].enter()
            self.sem[self.cur].release()
            self.done.acquire()
        except BaseException:
            self.dead = True
            self.left = 0
            for s in self.sem:
                s.release()
            raise
        finally:
            simfs.ACTIVE[0] = None
            seams.SCHEDULER[0] = None
        for t in threads:
            t.join()
        return self.results


class Work(object):
    """the history one thread performs, and what came of it"""

    def __init__(self, mode, case, tid, fs, own):
        self.env = core.Env(mode)
        self.case = case
        self.tid = tid
        self.fs = fs
        self.own = own
        self.session = None

    def __call__(self):
        end = None
        try:
            doc = open_doc(self.env, self.case, self.fs, 't%d.avb' % self.tid)
            mark_disk(doc)
            s = self.session = ThreadSession(self.env, self.case, doc)
            s.tid, s.own = self.tid, self.own
            for op in self.case['ops']:
                seams.SCHEDULER[0].operation()
                s.step(op)
            seams.SCHEDULER[0].operation()
            s.save_to(DIR + '/t%d_end.avb' % self.tid, 'little')
            doc.check_dump()
            doc.f.close()
        except Violation as v:
            end = ('violation', v.kind, v.detail)
        except (StepLimit, Stop, HarnessError):
            raise
        except Exception as e:
            end = ('raises', type(e).__name__, '%s at %s' % (e, where(e.__traceback__)))
        files = {n: hashlib.md5(b).hexdigest() for n, b in self.fs.listing().items()
                 if isinstance(b, (bytes, bytearray)) and os.path.basename(n).startswith('t%d' % self.tid)}
        return end, files, self.env.digest()


def twins(case, env):
    """the histories of several documents one by one, each with the package just imported, then in turns: same outcomes?"""
    def context(k, c):
        fs = new_fs(env, c)
        return fs, Context('%s/%d' % (case['seed'], k), fs), Work(env.mode, c, k, fs, True)
    alone = []
    for k, c in enumerate(case['twins']):
        core.as_imported()
        fs, ctx, work = context(k, c)
        alone += Scheduler([ctx], []).run([work])
    core.as_imported()
    three = [context(k, c) for k, c in enumerate(case['twins'])]
    s = Scheduler([x[1] for x in three], case['turns'], whole=True)
    together = s.run([x[2] for x in three])
    for r in alone + together:
        if isinstance(r, BaseException) and not isinstance(r, StepLimit):
            raise r
    for k, (a, b) in enumerate(zip(alone, together)):
        if isinstance(b, StepLimit):
            raise Violation('a document disturbed by another one does not end', 'document %d' % k)
        if a[0] != b[0]:
            raise Violation('documents disturb each other', 'document %d: %s, alone: %s' % (
                k, b[0] or 'finished', a[0] or 'finished'))
        if a[1] != b[1]:
            diff = sorted(x for x in set(a[1]) | set(b[1]) if a[1].get(x) != b[1].get(x))
            raise Violation('documents disturb each other', 'document %d: file %s differs from the one written alone' % (k, diff[0]))
        if a[2] != b[2]:
            raise Violation('documents disturb each other', 'document %d: outcomes differ' % k)
        if a[0]:
            env.count('histories that fail alone')
    env.count('histories compared with the same alone', len(alone))
    env.log('twins', s.handed, [a[2] for a in alone])
    env.states.add(s.path.digest()[:6])
    env.nontrivial = s.handed > 2


class ThreadSession(Session):
    tid = 0
    own = True

    def __init__(self, *a):
        Session.__init__(self, *a)
        self.second = None

    def do_save(self, rng):
        self.save_to(DIR + '/t%d_%d.avb' % (self.tid, rng.randint(0, 2)), rng.choice(['little', 'big']))

    def saved_model(self, m, data):
        self.env.log('bytes', hashlib.md5(data).hexdigest())

    def do_failsave(self, rng):
        kind = rng.choice(['write', 'open', 'rename', 'full', 'nodir'] if self.own else ['nodir'])
        fs = self.fs
        path = DIR + '/t%d_fail.avb' % self.tid
        if kind == 'full':
            fs.capacity = fs.used() + rng.randint(0, 300)
        elif kind == 'nodir':
            path = '/simfs/none/fail.avb'
        else:
            fs.set_faults([[kind, 1, 'EIO', False]])
        try:
            self.doc.f.write(path, rng.choice(['little', 'big']))
            ok = 'saved'
        except Exception as e:
            ok = type(e).__name__
        fs.clear_faults()
        fs.capacity = None
        self.env.log('failsave', kind, ok)

    def do_copy(self, rng):
        """into another document of the same thread"""
        i = self.doc.pick(rng, ('CMPO',)) or self.doc.pick(rng)
        if i == self.doc.exp.root:
            return
        g = adapter.avb.file.AVBFile()
        c = self.doc.live(i, rng).copy(g)
        if self.doc.exp.objs[i]['_c'] == 'CMPO':
            g.content.add_mob(c)
        else:
            g.content.attributes = g.create.Attributes()
            g.content.attributes[u'copy'] = c
        path = DIR + '/t%d_copy.avb' % self.tid
        try:
            g.write(path, rng.choice(['little', 'big']))
            data = self.fs.get(path)
            m = ref.decode_file(data)
            self.env.log('copied', len(m.objs), hashlib.md5(data).hexdigest())
        except (Violation, ref.RefError):
            raise
        except Exception as e:
            # a copied object can need what only its bin holds
            self.env.log('copy', type(e).__name__)

    def do_newmob(self, rng):
        m = self.doc.f.create.Composition(mob_type='MasterMob')
        self.env.log('mob', bytes(m.mob_id.bytes_le).hex(), str(m.creation_time))


class F01(Prop):
    ID = 'F01'
    quick = {'pure': 600, 'ext': 90}
    rule = ('a run gives two to four real threads a document and a random history each (open, read, edit, copy, collect, '
            'save, failing saves, reopen) and hands over between them after seeded numbers of source lines (and returns) '
            'of the code under test; each thread\'s outcome log, exceptions and saved files must equal those of the same '
            'history run alone; non-trivial when at least ten hand-overs happened')
    assumptions = ['threads interleave between source lines of the package and when its functions return; calls into built-in and compiled '
                   'code are atomic, as they are under the global interpreter lock']
    states_rule = 'hashes of the sequences of hand-overs (thread and position): distinct interleavings'
    real = ['all of /repo/src/avb', 'real interpreter threads']
    stub = ['the thread scheduler: one thread runs at a time and hands over where the schedule says', 'file system, clock, '
            'entropy and random state, one set per thread (some runs share the file system)']
    wall_limit = 90

    def generate(self, rng, index, tier):
        n = rng.choice([2, 2, 2, 3, 4])
        own = rng.random() < 0.6
        threads = []
        same = rng.random() < 0.2
        first = None
        for k in range(n):
            c = gen_source(rng, index * 4 + k, size=(1, 12), mobs=(0, 2))
            c['src'] = rng.choice(['api', 'bytes', 'bytes'])
            c['big'], c['long'] = False, None
            if not own:
                c['short'] = False
            c['ops'] = gen_ops(rng, EDIT_OPS + [('read', 3), ('drop', 1), ('hold', 1), ('gc', 0.3), ('save', 4), ('reopen', 1.5),
                                                ('saveover', 1), ('failsave', 1.5), ('copy', 1.5), ('newmob', 0.7),
                                                ('iter', 1), ('next', 2), ('dump', 1)], rng.choice([1, 3, 6]))
            if same and first is not None:
                c = dict(first)
            first = c
            threads.append(c)
        scales = rng.choice([(1, 3), (3, 10), (10, 60), (50, 300), (300, 2000), (1, 300), (1, 2000)])
        switches = []
        for j in range(rng.choice([20, 60, 200, 400])):
            q = int(scales[0] * (float(scales[1]) / scales[0]) ** rng.random())
            switches.append([max(1, q), rng.randrange(12)])
        return {'seed': rng.getrandbits(40), 'own': own, 'threads': threads, 'switches': switches,
                'returns': rng.random() < 0.5, 'cold': rng.random() < 0.4}

    def alone(self, case, env):
        out = []
        for k, c in enumerate(case['threads']):
            fs = new_fs(env, c)
            ctx = Context('%s/%d' % (case['seed'], k), fs)
            s = Scheduler([ctx], [])
            r = s.run([Work(env.mode, c, k, fs, case['own'])])[0]
            if isinstance(r, BaseException):
                raise r
            out.append(r)
        return out

    def run(self, case, env):
        n = len(case['threads'])
        if not n:
            return
        if not case.get('cold'):
            alone = self.alone(case, env)
        else:
            # what is set up at its first use is set up while other threads use it too
            core.as_imported()
            env.count('runs that start with the package just imported')
        shared = None if case['own'] else new_fs(env, dict(case, short=False))
        works, ctxs = [], []
        for k, c in enumerate(case['threads']):
            fs = shared or new_fs(env, c)
            ctxs.append(Context('%s/%d' % (case['seed'], k), fs))
            works.append(Work(env.mode, c, k, fs, case['own']))
        s = Scheduler(ctxs, case['switches'], case['returns'])
        together = s.run(works)
        if case.get('cold'):
            alone = self.alone(case, env)
        env.count('fault:thread hand-over', s.handed)
        env.count('lines between which threads could be handed over', s.points)
        env.states.add(s.path.digest()[:6])
        env.log('threads', n, s.handed, s.points)
        env.nontrivial = s.handed >= 10
        for k, (a, b) in enumerate(zip(alone, together)):
            if isinstance(b, (HarnessError, KeyboardInterrupt)):
                raise b
            if isinstance(b, StepLimit):
                raise Violation('a thread does not end', 'thread %d' % k)
            if isinstance(b, BaseException):
                raise Violation('a thread ends by an exception', 'thread %d: %s %s' % (k, type(b).__name__, b))
            if a[0] != b[0]:
                raise Violation('threads disturb each other', 'thread %d: %s, alone: %s' % (
                    k, b[0] or 'finished', a[0] or 'finished'))
            if a[1] != b[1]:
                diff = sorted(x for x in set(a[1]) | set(b[1]) if a[1].get(x) != b[1].get(x))
                raise Violation('threads disturb each other', 'thread %d: file %s differs' % (k, diff[0]))
            if a[2] != b[2]:
                raise Violation('threads disturb each other', 'thread %d: outcomes differ' % k)
            if a[0]:
                env.count('histories that fail alone')
        if shared is not None:
            own = set(x for b in together for x in b[1])
            left = sorted(x for x, v in shared.listing().items() if isinstance(v, (bytes, bytearray)) and x not in own)
            if left:
                raise Violation('threads leave files behind', left[0])
