"""Properties of what a document answers about itself: positions on the timeline, values of keyframes, mob ids."""
import gc
import math

from . import simfs, ref, adapter
from .core import Violation, HarnessError, rng_for
from .props_doc import Prop
from .props_coll import CollSession, MobSession, outcome, show
from .session import DIR, new_fs, gen_ops, mark_disk
from .world import Doc, clone, file_bytes, list_op, list_apply


# --------------------------------------------------------------------------
# documents with timelines and keyframes

LENGTHS = [0, 0, 1, 2, 3, 5, 10, 10, 24, 25, 100, 1000, 86400]


class LineBuilder(ref.Builder):
    """documents of mobs with sequences or keyframes"""

    def make(self, cid, **kw):
        i = self.new(cid)
        self.model.objs[i].update(kw)
        return i

    def leaf(self):
        rng = self.rng
        n = rng.choice(LENGTHS) if rng.random() < 0.97 else rng.choice([0x7fffffff, 0x80000000, 0xffffffff])
        return self.make(rng.choice(['SCLP', 'SCLP', 'FILL', 'TCCP']), length=n)

    def track(self, t, n):
        return {'index': n, 'component': t}

    def sequence(self, pool, depth=0):
        rng, objs = self.rng, self.model.objs
        out = []
        last = None
        for k in range(rng.choice([0, 1, 2, 3, 5, 8, 12] if not depth else [0, 1, 2, 3, 4])):
            r = rng.random()
            if r < 0.2 and last and last['_c'] not in ('TNFX', 'SEQU'):
                n = rng.randint(0, min(max(last['length'], 0), 0xffff)) if rng.random() < 0.9 else rng.choice(LENGTHS)
                t = self.make('TNFX', length=n)
            elif r < 0.3 and depth < 2:
                t = self.sequence(pool, depth + 1)
            elif r < 0.4 and depth < 2:
                inner = self.sequence(pool, depth + 1)
                t = self.make('SLCT', length=rng.choice(LENGTHS), tracks=[self.track(inner, 1)], selected=0)
            elif r < 0.45 and pool:
                t = rng.choice(pool)
            else:
                t = self.leaf()
                pool.append(t)
            out.append(t)
            last = objs[t]
        return self.make('SEQU', components=out)

    def keyframes(self):
        rng = self.rng
        t = rng.choice([1, 2, 2])
        return self.make('PRCL', interp_kind=rng.choice([2, 3, 3, 5, 5, 6, 6]), value_type=t,
                         control_points=[point_dict(p) for p in fresh_points(rng, t)])

    def document(self, nmobs, what):
        rng = self.rng
        self.nmobs = 0
        root = self.model.root = self.new('ABIN')
        for k in range(nmobs):
            pool, tracks, extra = [], [], []
            for j in range(rng.randint(1, 3)):
                t = self.keyframes() if what == 'keys' else self.sequence(pool)
                if rng.random() < 0.2:
                    extra.append([u'extra%d' % j, 3, t])
                else:
                    tracks.append(self.track(t, j + 1))
            m = self.make('CMPO', tracks=tracks)
            if extra:
                self.model.objs[m]['attributes'] = self.make('ATTR', _a=extra)
            self.model.objs[root]['items'].append({'mob': m, 'x': k, 'y': 0, 'keyframe': 0, 'user_placed': True})
        return ref.prune(self.model)


def fresh_points(rng, kind):
    """keyframes in order of time -> [(offset, timescale, value, pp)...]"""
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
    den, scale = rng.choice([(1, 1), (1, 1), (100, 100), (24, 1), (2, 1), (3, 1), (1, 25), (10, 1)])
    at = rng.choice([0, 0, 0, -10, 7, 40, rng.randint(-300, 300)]) * den // scale
    out = []
    for k in range(n):
        v = rng.randint(-50, 50) if kind == 1 else rng.choice([rng.randint(-100, 100) / 1.0, rng.uniform(-500, 500), 1.0])
        out.append(([at, den], scale, v, fresh_pp(rng)))
        step = rng.choice([1, 2, 5, 10, 33, 100])
        at += max(1, step * den // scale)
    return out


def fresh_pp(rng):
    out = []
    if rng.random() < 0.6:
        for code in (5, 6, 7, 8):
            if rng.random() < 0.85:
                v = rng.choice([0.0, rng.uniform(0, 6), rng.uniform(0, 30)])
                if code == 5:
                    v = -v
                elif code != 7:
                    v = rng.choice([1, -1]) * v
                out.append((code, 2, v))
    if rng.random() < 0.25:
        out.append((14, 1, rng.randint(-20, 20)))
    if rng.random() < 0.25:
        out.append((rng.choice([9, 1, 2, 30]), rng.choice([1, 1, 2]), None))
        out[-1] = out[-1][:2] + ((rng.randint(0, 3) if out[-1][1] == 1 else 0.5),)
    return out


def make_pp(f, items):
    out = []
    for code, typ, v in items:
        p = f.create.ParamControlPointProperty()
        p.code, p.type, p.value = code, typ, v
        out.append(p)
    return out


def make_point(f, p):
    cp = f.create.ParamControlPoint()
    cp.offset, cp.timescale, cp.value = list(p[0]), p[1], p[2]
    cp.pp = make_pp(f, p[3])
    return cp


def point_dict(p):
    return {'offset': list(p[0]), 'timescale': p[1], 'value': p[2],
            'pp': [{'code': c, 'type': t, 'value': v} for c, t, v in p[3]]}


def timeline_model(case):
    rng = rng_for('timeline', case['seed'])
    b = LineBuilder(rng, size=case['size'], order=case['order'], misc=[])
    m = b.document(case['nmobs'], case['what'])
    if ref.visits(m) > 1500:
        # a save walks every path to an object
        b = LineBuilder(rng, size=0, order=case['order'], misc=[])
        m = b.document(1, case['what'])
    m.last_save = 1500000000
    m.creator = u'pyavb sim'
    return m


class TimeSession(CollSession):
    def __init__(self, env, case, doc):
        CollSession.__init__(self, env, case, doc)
        self.queries = 0
        self.edits = 0
        self.walks = []

    def of_class(self, cid):
        return [i for i in self.doc.reach() if self.doc.exp.objs[i]['_c'] == cid]

    def changed(self):
        self.edits += 1
        self.walks = []

    def do_reload(self, rng):
        self.walks = []
        CollSession.do_reload(self, rng)

    def do_reopen(self, rng):
        self.walks = []
        CollSession.do_reopen(self, rng)

    def do_drop(self, rng):
        self.doc.hold.clear()

    def do_edit(self, rng):
        """anything else in the document"""
        self.changed()
        self.doc.edit(rng)

    def do_failed_save(self, rng):
        """a save that ends with an error changes no answer"""
        self.fs.set_faults([['write', rng.randint(1, 6), rng.choice(['ENOSPC', 'EIO']), True]])
        r = outcome(lambda: self.doc.f.write(DIR + '/broken.avb', rng.choice(['little', 'big'])))
        fired = self.fs.fired[-1:] if self.fs.fired else None
        self.fs.clear_faults()
        self.env.count('failed saves' if r[0] == 'raises' else 'saves')

    def ask(self, i, rng, query, judge):
        """put a question to object i, now and then while reading fails; judge raises when the answer is wrong"""
        doc = self.doc
        self.queries += 1
        if doc.index is not None and rng.random() < 0.3:
            self.walks = []
            doc.hold.clear()
            self.made = {t: o for t, o in self.made.items() if t not in self.rev}
            gc.collect()
            o = doc.live(i, rng)
            self.fs.set_faults([[rng.choice(['read', 'read', 'seek']), rng.randint(1, 8), rng.choice(['EIO', 'eof', 'EIO']),
                                 rng.random() < 0.3]])
            n = len(self.fs.fired)
            r = outcome(lambda: query(o))
            fired = len(self.fs.fired) > n
            self.fs.clear_faults()
            if fired:
                self.env.count('questions while reading fails')
            if r[0] == 'returns' or not fired:
                self.judged(r, judge, 'while reading fails')
            r = None
        o = doc.live(i, rng)
        self.judged(outcome(lambda: query(o)), judge, '')

    def judged(self, r, judge, when):
        try:
            judge(r)
        except Violation as v:
            if when:
                raise Violation(v.kind + ' ' + when, v.detail)
            raise


class TimeProp(Prop):
    what = None
    session = None
    ops = ()

    def generate(self, rng, index, tier):
        c = {'seed': rng.getrandbits(40), 'nmobs': rng.randint(1, 3), 'size': rng.choice([0, 0, 3, 8]), 'what': self.what, 'order': rng.choice(['little', 'big']),
             'src': rng.choice(['bytes', 'bytes', 'bytes', 'api']), 'perm': rng.random() < 0.6, 'spell': rng.random() < 0.4,
             'buffering': rng.choice([8192, 1, 7, 64, 513]), 'short': rng.random() < 0.4}
        c['ops'] = gen_ops(rng, list(self.ops) + [('reload', 1.5), ('drop', 1), ('gc', 1), ('edit', 0.7), ('save', 0.6),
                                                  ('failed_save', 0.4), ('reopen', 0.6)],
                           rng.choice([5, 10, 20, 35] if tier == 'quick' else [10, 25, 50]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            model = timeline_model(case)
            doc = Doc(env, case, fs, DIR + '/src.avb')
            if case['src'] == 'api':
                doc.create(model)
                doc.path = None
            else:
                data, spans, refmap = file_bytes(case, model)
                doc.open_bytes(model, data, refmap)
                doc.data, doc.spans, doc.refmap = data, spans, refmap
            mark_disk(doc)
            s = self.session(env, case, doc)
            for op in case['ops']:
                s.step(op)
            for k in range(6):
                s.do_query(rng_for('end', case['seed'], k))
            doc.check_dump(None)
            s.save_to(DIR + '/final.avb', 'little')
            doc.f.close()
            env.nontrivial = s.queries >= 3 and s.edits >= 1


# --------------------------------------------------------------------------
# D10

class LineSession(TimeSession):
    def length(self, t):
        d = self.doc.exp.objs[t]
        if d['_c'] == 'SEQU':
            return sum(-self.length(x) if self.is_fx(x) else self.length(x) for x in d['components'])
        return d['length']

    def is_fx(self, t):
        return self.doc.exp.objs[t]['_c'] == 'TNFX'

    def positions(self, i):
        """[(id, start, length)...]"""
        out = []
        at = 0
        for t in self.doc.exp.objs[i]['components']:
            n = self.length(t)
            if self.is_fx(t):
                at -= n
                out.append((t, at, n))
            else:
                out.append((t, at, n))
                at += n
        return out

    def nearest(self, i, t):
        """(index, start) or None where components do not follow each other"""
        ps = [(k, at, n, x) for k, (x, at, n) in enumerate(self.positions(i)) if n]
        if any(b[1] < a[1] for a, b in zip(ps, ps[1:])) or any(p[2] < 0 for p in ps):
            return None
        for k, at, n, x in ps:
            if self.is_fx(x) and at <= t < at + n:
                return k, at
        before = [p for p in ps if p[1] <= t] or ps[:1]
        return before[-1][:2] if before else (0, 0)

    def pick_sequence(self, rng):
        ids = self.of_class('SEQU')
        return rng.choice(ids) if ids else None

    def do_length(self, rng):
        """a component gets longer or shorter"""
        i = self.pick_sequence(rng)
        if i is None:
            return
        cs = [t for t in self.doc.exp.objs[i]['components'] if t and 'length' in self.doc.exp.objs[t]]
        if not cs:
            return
        t = rng.choice(cs)
        nd = clone(self.doc.exp.objs[t])
        nd['length'] = rng.choice(LENGTHS + [max(0, nd['length'] - 1), min(0x7fffffff, nd['length'] + 1)])
        self.changed()
        self.doc.apply(t, nd, None, lambda o, objs: setattr(o, 'length', nd['length']), rng)

    def do_list(self, rng, how=None):
        """components added, removed, moved"""
        i = self.pick_sequence(rng)
        if i is None:
            return
        doc = self.doc
        nd = clone(doc.exp.objs[i])
        don = doc.donor(rng, rng.choice([0, 1, 2]))
        new = []
        for k in range(rng.randint(1, 3)):
            t = don.new(rng.choice(['FILL', 'FILL', 'SCLP', 'TCCP', 'TNFX']))
            don.fresh[t]['length'] = rng.choice(LENGTHS)
            new.append(t)
        old = [t for t in doc.reach() if doc.exp.objs[t]['_c'] in ('FILL', 'SCLP', 'TCCP') and
               all(x in doc.reach() for x in ref.ref_targets(doc.exp.objs[t]) if x)]
        if old:
            new.append(rng.choice(old))
        whole = rng.random() < 0.2
        ops = []
        if whole:
            keep = [t for t in nd['components'] if rng.random() < 0.7]
            rng.shuffle(keep)
            nd['components'] = keep + rng.sample(new, rng.randint(0, len(new)))
        else:
            for n in range(rng.randint(1, 3)):
                op = list_op(rng, nd['components'], new)
                if op:
                    ops.append(op)
        before = doc.exp.objs[i]['components']

        def go(obj, objs):
            if whole:
                obj.components = [objs[t] for t in nd['components']]
            for op in ops:
                list_apply(obj.components, op, lambda t: objs[t])
        self.changed()
        doc.apply(i, nd, don, go, rng, set(before) | set(new))

    def do_query(self, rng):
        i = self.pick_sequence(rng)
        if i is None:
            return
        what = rng.choice(['length', 'positions', 'index', 'index', 'component', 'positions'])
        self.env.count('question:' + what)
        ps = self.positions(i)
        total = self.length(i)
        self.env.log(what, len(ps), total)
        if what == 'length':
            def judge(r):
                if r != ('returns', total):
                    raise Violation('length differs', '%s, expected %d' % (show(r), total))
            return self.ask(i, rng, lambda o: o.length, judge)
        if what == 'positions':
            def judge(r):
                if r[0] != 'returns':
                    raise Violation('positions differ', show(r))
                got = [tuple(x) for x in r[1]]
                if [(k, at) for k, at, o in got] != [(k, at) for k, (t, at, n) in enumerate(ps)]:
                    raise Violation('positions differ', '%s, expected %s' % ([x[:2] for x in got][:20], [x[1] for x in ps][:20]))
                for (k, at, o), (t, _, _) in zip(got, ps):
                    self.same(t, o)
            return self.ask(i, rng, lambda o: list(o.positions()), judge)
        edges = [0, -1, total, total - 1, total + 5]
        for t, at, n in ps:
            edges += [at, at + n, at - 1, at + n - 1, at + 1, at + n // 2]
        at = rng.choice(edges)
        if rng.random() < 0.1:
            at += 0.5
        want = self.nearest(i, at)
        if want is None:
            self.env.count('sequences that run backwards')
            return
        if what == 'index':
            def judge(r):
                if r[0] != 'returns' or tuple(r[1]) != want:
                    raise Violation('wrong component at a position', 'at %s: %s, expected %s' % (
                        at, r[1] if r[0] == 'returns' else show(r), want))
            return self.ask(i, rng, lambda o: o.nearest_index_at_time(at), judge)

        def judge(r):
            if not ps:
                if r != ('raises', IndexError):
                    raise Violation('wrong component at a position', 'of an empty sequence: %s' % show(r))
                return
            if r[0] != 'returns' or r[1][1] != want[1]:
                raise Violation('wrong component at a position', 'at %s: %s, expected %s' % (at, show(r), want))
            self.same(ps[want[0]][0], r[1][0])
        self.ask(i, rng, lambda o: o.nearest_component_at_time(at), judge)

    def same(self, t, o):
        if adapter.class_id(o) != self.doc.exp.objs[t]['_c'] or self.doc.live(t) is not o:
            raise Violation('wrong component', '%s for %s %d' % (adapter.class_id(o), self.doc.exp.objs[t]['_c'], t))

    def do_walk(self, rng):
        """go through positions step by step, with anything but changes in between"""
        if not self.walks or rng.random() < 0.3:
            i = self.pick_sequence(rng)
            if i is None:
                return
            self.walks.append([iter(self.doc.live(i, rng).positions()), self.positions(i), 0])
            del self.walks[:-3]
        w = rng.choice(self.walks)
        for n in range(rng.randint(1, 4)):
            try:
                got = next(w[0])
            except StopIteration:
                if w[2] != len(w[1]):
                    raise Violation('walk ended early', '%d of %d' % (w[2], len(w[1])))
                self.walks.remove(w)
                self.env.count('walks ended')
                return
            if w[2] >= len(w[1]):
                raise Violation('walk yields too much')
            t, at, length = w[1][w[2]]
            if (got[0], got[1]) != (w[2], at):
                raise Violation('positions differ', '%s, expected %s in a walk' % (tuple(got[:2]), (w[2], at)))
            self.same(t, got[2])
            w[2] += 1


class D10(TimeProp):
    ID = 'D10'
    quick = {'pure': 2600, 'ext': 800}
    what = 'line'
    session = LineSession
    ops = [('query', 6), ('length', 4), ('list', 3), ('walk', 3)]
    rule = ('a run is a document of mobs with nested sequences (transitions, fillers of length zero, shared clips, selectors), '
            'whose components are made longer and shorter, added, removed and moved, and asked in between for lengths, '
            'positions and the component at a position, with walks suspended, objects dropped and read again, reads that '
            'fail, failing saves and reopens; every answer is compared with the running sum over the model; non-trivial '
            'when at least three questions and one change were made')


# --------------------------------------------------------------------------
# D11

CONSTANT, LINEAR, BEZIER, CUBIC = 2, 3, 5, 6


def time_of(p):
    return float(p['offset'][0]) / float(p['offset'][1]) * p['timescale']


def tangent(p, names):
    v = {}
    for x in p['pp']:
        v[x['code']] = x['value']
    return tuple(float(v.get(n, 0)) for n in names)


def shorten(p0, p1, x):
    """the handle p1 of p0, cut where it passes x"""
    return (x, p0[1] + (p1[1] - p0[1]) * (x - p0[0]) / (p1[0] - p0[0]))


def bezier(p0, p1, p2, p3, x):
    """(value, slack): the curve is solved by bisection; slack is how far off a solution off by a bit may be"""
    if p1[0] > p3[0]:
        p1 = shorten(p0, p1, p3[0])
    elif p1[0] < p0[0]:
        p1 = (p0[0], p1[1])
    if p2[0] < p0[0]:
        p2 = shorten(p3, p2, p0[0])
    elif p2[0] > p3[0]:
        p2 = (p3[0], p2[1])

    def at(k, t):
        u = 1.0 - t
        return u * u * u * p0[k] + 3 * u * u * t * p1[k] + 3 * u * t * t * p2[k] + t * t * t * p3[k]

    def solve(x):
        lo, hi = 0.0, 1.0
        for n in range(70):
            mid = (lo + hi) / 2
            if at(0, mid) < x:
                lo = mid
            else:
                hi = mid
        return at(1, (lo + hi) / 2)
    eps = (p3[0] - p0[0]) * 1e-5
    a, b, c = solve(max(p0[0], x - eps)), solve(x), solve(min(p3[0], x + eps))
    ys = [abs(p[1]) for p in (p0, p1, p2, p3)]
    return b, max(abs(a - b), abs(c - b)) + 2e-6 * (1 + max(ys))


def cubic_handles(p0, p1, p2, p3):
    """handles of the span p1-p2 between its neighbours"""
    def slope(a, b):
        return (b[1] - a[1]) / (b[0] - a[0])

    def sign(v):
        return 1 if v >= 0 else -1

    def lean(a, m, b):
        s, s1, s2 = slope(a, b), slope(a, m), slope(m, b)
        if a[1] == b[1] or not sign(s) == sign(s1) == sign(s2):
            return 0.0
        return min(abs(b[1] - m[1]), abs(m[1] - a[1])) / abs(b[1] - a[1]) * 2.0 * s
    dx = 0.4 * (p2[0] - p1[0])
    return ((p1[0] + dx, p1[1] + lean(p0, p1, p2) * dx), (p2[0] - dx, p2[1] - lean(p1, p2, p3) * dx))


def value_at(d, t):
    """(value, slack)"""
    ps = [(time_of(p), float(p['value'])) for p in d['control_points']]
    cp = d['control_points']
    before = [k for k, p in enumerate(ps) if p[0] <= t]
    if not before:
        return ps[0][1], 0
    k = before[-1]
    kind = d['interp_kind']
    if k + 1 == len(ps) or kind == CONSTANT:
        return ps[k][1], 0
    a, b = ps[k], ps[k + 1]
    if kind == LINEAR:
        v = a[1] + (b[1] - a[1]) * (t - a[0]) / (b[0] - a[0])
        return v, 1e-9 * (1 + abs(a[1]) + abs(b[1]))
    if kind == BEZIER:
        out, back = tangent(cp[k], (7, 8)), tangent(cp[k + 1], (5, 6))
        return bezier(a, (a[0] + out[0], a[1] + out[1]), (b[0] + back[0], b[1] + back[1]), b, t)
    if kind == CUBIC:
        half = (b[0] - a[0]) * 0.5
        prev = ps[k - 1] if k else (a[0] - half, a[1])
        nxt = ps[k + 2] if k + 2 < len(ps) else (b[0] + half, b[1])
        h1, h2 = cubic_handles(prev, a, b, nxt)
        return bezier(a, h1, h2, b, t)
    return None


def integral(d, start, end):
    """[(t, value, slack)...] at every half unit from start to end"""
    first = d['control_points'][0]
    center = int(time_of(first))
    base = [x['value'] for x in first['pp'] if x['code'] == 14]

    def piece(a):
        # half a unit in five steps, the first of which begins a step early
        vs = [value_at(d, a + k * 0.1) for k in range(-1, 5)]
        return (sum((x[0] + y[0]) * 0.05 for x, y in zip(vs, vs[1:])), sum(x[1] for x in vs) * 0.1)
    lo, hi = min(start, center), max(end, center)
    sums = {}
    at, slack = 0.0, 1e-7
    for k in range(2 * lo, 2 * hi + 1):
        v, s = piece(k / 2.0 - 0.5)
        at += v
        slack += s + abs(at) * 1e-12
        sums[k] = (at, slack)
    zero = sums[2 * center]
    shift = zero[0] - (base[0] if base else 0)
    return [(k / 2.0, sums[k][0] - shift, sums[k][1] + zero[1]) for k in range(2 * start, 2 * end + 1)]


class KeySession(TimeSession):
    def pick_clip(self, rng):
        ids = [i for i in self.of_class('PRCL') if self.usable(self.doc.exp.objs[i])]
        return rng.choice(ids) if ids else None

    def usable(self, d):
        """what the property speaks of: plain values at increasing times"""
        ps = d['control_points']
        if not ps or d['value_type'] not in (1, 2) or d['interp_kind'] not in (CONSTANT, LINEAR, BEZIER, CUBIC):
            return False
        for p in ps:
            if not p['offset'][1] or not p['timescale'] or abs(p['value']) > 1e4 or 0 < abs(p['value']) < 1e-6:
                return False
            if any(abs(x['value']) > 1e4 or 0 < abs(x['value']) < 1e-6 for x in p['pp']):
                return False
        ts = [time_of(p) for p in ps]
        return all(abs(t) < 5000 for t in ts) and all(b - a > 0.04 for a, b in zip(ts, ts[1:]))

    def do_point(self, rng):
        """change keyframes"""
        i = self.pick_clip(rng)
        if i is None:
            return
        doc = self.doc
        nd = clone(doc.exp.objs[i])
        ps = nd['control_points']
        k = rng.randrange(len(ps))
        act = rng.choice(['value', 'value', 'move', 'pp', 'pp_value', 'add', 'del', 'whole', 'kind'])
        kind = nd['value_type']
        p = ps[k]
        f = doc.f
        if act == 'value':
            p['value'] = rng.randint(-50, 50) if kind == 1 else rng.uniform(-500, 500)

            def go(o, objs): o.control_points[k].value = p['value']
        elif act == 'move':
            p['offset'] = [p['offset'][0] + rng.choice([1, -1, 2, 5, -5]), p['offset'][1]]
            inplace = rng.random() < 0.5

            def go(o, objs):
                if inplace:
                    o.control_points[k].offset[0] = p['offset'][0]
                else:
                    o.control_points[k].offset = list(p['offset'])
        elif act == 'pp':
            new = fresh_pp(rng)
            p['pp'] = [{'code': c, 'type': t, 'value': v} for c, t, v in new]
            inplace = rng.random() < 0.5

            def go(o, objs):
                if inplace:
                    o.control_points[k].pp[:] = make_pp(f, new)
                else:
                    o.control_points[k].pp = make_pp(f, new)
        elif act == 'pp_value':
            if not p['pp']:
                return
            x = rng.choice(p['pp'])
            n = p['pp'].index(x)
            x['value'] = x['value'] + 1

            def go(o, objs): o.control_points[k].pp[n].value = x['value']
        elif act == 'add':
            new = fresh_points(rng, kind)[0]
            q = point_dict(new)
            q['offset'] = [p['offset'][0] + rng.choice([-1, 1, 3]), p['offset'][1]]
            q['timescale'] = p['timescale']
            at = k + (1 if q['offset'][0] > p['offset'][0] else 0)
            ps.insert(at, q)

            def go(o, objs): o.control_points.insert(at, make_point(f, (q['offset'], q['timescale'], new[2], new[3])))
        elif act == 'del':
            if len(ps) < 2:
                return
            del ps[k]

            def go(o, objs): del o.control_points[k]
        elif act == 'whole':
            new = fresh_points(rng, kind)
            nd['control_points'] = [point_dict(x) for x in new]
            inplace = rng.random() < 0.5

            def go(o, objs):
                if inplace:
                    o.control_points[:] = [make_point(f, x) for x in new]
                else:
                    o.control_points = [make_point(f, x) for x in new]
        else:
            nd['interp_kind'] = rng.choice([2, 3, 5, 6])

            def go(o, objs): o.interp_kind = nd['interp_kind']
        if not self.usable(nd):
            return
        self.changed()
        self.env.count('keyframes:' + act)
        doc.apply(i, nd, None, go, rng)

    def do_query(self, rng):
        i = self.pick_clip(rng)
        if i is None:
            return
        d = self.doc.exp.objs[i]
        ps = d['control_points']
        ts = [time_of(p) for p in ps]
        what = rng.choice(['value', 'value', 'value', 'points', 'integral', 'index', 'names'])
        self.env.count('question:' + what)
        self.env.log(what, d['interp_kind'], len(ps))
        if what in ('value', 'index'):
            at = rng.choice(ts + [ts[0] - 3, ts[-1] + 3, rng.uniform(ts[0], ts[-1]), rng.uniform(ts[0], ts[-1]),
                                  rng.randint(int(ts[0]), int(ts[-1]) + 1)])
            if what == 'index':
                want = max([k for k, t in enumerate(ts) if t <= at] or [0])

                def judge(r):
                    if r != ('returns', want):
                        raise Violation('wrong keyframe', 'at %r: %s, expected %d' % (at, show(r), want))
                return self.ask(i, rng, lambda o: o.nearest_index(at), judge)
            want, slack = value_at(d, at)
            self.env.count('curve:%d' % d['interp_kind'])

            def judge(r):
                if r[0] != 'returns' or not abs(r[1] - want) <= slack:
                    raise Violation('value of a keyframe differs', 'at %r of %s: %s, expected %r' % (at, len(ps), show(r), want))
            return self.ask(i, rng, lambda o: o.value_at(at), judge)
        if what == 'integral':
            a = rng.choice([0, int(ts[0]), int(ts[-1]), int(ts[0]) - 3, rng.randint(-20, 60)])
            b = rng.choice([a, a + 1, a + 20, int(ts[-1])])
            if b < a or max(b, int(ts[0])) - min(a, int(ts[0])) > 150:
                b = a
            if abs(a - ts[0]) > 150:
                return
            want = integral(d, a, b)

            def judge(r):
                if r[0] != 'returns' or [x[0] for x in r[1]] != [x[0] for x in want]:
                    raise Violation('integral differs', 'from %d to %d: %s' % (a, b, show(r) if r[0] != 'returns' else
                                                                               [x[0] for x in r[1]][:4]))
                for (t, v), (_, w, slack) in zip(r[1], want):
                    if not abs(v - w) <= slack + 1e-9 * abs(w):
                        raise Violation('integral differs', 'at %r: %r, expected %r' % (t, v, w))
            end = None if rng.random() < 0.3 and int(ts[-1]) == b else b
            return self.ask(i, rng, lambda o: o.integrate(a, end) if end is not None else o.integrate(a), judge)
        if what == 'points':
            def query(o):
                return [(p.time, [tuple(x) for x in p.tangents], p.base_frame, sorted(p.point_properties.items()))
                        for p in o.control_points]

            def judge(r):
                want = []
                for p in ps:
                    base = [x['value'] for x in p['pp'] if x['code'] == 14] + [0]
                    names = {}
                    for x in p['pp']:
                        if x['code'] in PP_NAMES:
                            names[PP_NAMES[x['code']]] = x['value']
                    want.append((time_of(p), [tangent(p, (5, 6)), tangent(p, (7, 8))], base[0], sorted(names.items())))
                if r[0] != 'returns' or not close(r[1], want):
                    raise Violation('keyframes differ', '%s, expected %s' % (ref.short(r[1]) if r[0] == 'returns' else show(r), ref.short(want)))
            return self.ask(i, rng, query, judge)

        def query(o):
            return [o.interp, o.value_type_name] + [[(x.name, x.type_name) for x in p.pp] for p in o.control_points]

        def judge(r):
            want = [{2: 'ConstantInterp', 3: 'LinearInterp', 5: 'BezierInterpolator', 6: 'CubicInterpolator'}[d['interp_kind']],
                    {1: 'int', 2: 'double'}[d['value_type']]]
            want += [[(PP_NAMES.get(x['code']), {1: 'int', 2: 'double'}[x['type']]) for x in p['pp']] for p in ps]
            if r != ('returns', want):
                raise Violation('names differ', '%s, expected %s' % (ref.short(r[1]) if r[0] == 'returns' else show(r), ref.short(want)))
        self.ask(i, rng, query, judge)


PP_NAMES = {5: 'PP_IN_TANGENT_POS_U', 6: 'PP_IN_TANGENT_VAL_U', 7: 'PP_OUT_TANGENT_POS_U', 8: 'PP_OUT_TANGENT_VAL_U',
            9: 'PP_TANGENT_MODE_U', 14: 'PP_BASE_FRAME_U'}


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(b))
    return a == b


class D11(TimeProp):
    ID = 'D11'
    quick = {'pure': 2000, 'ext': 500}
    what = 'keys'
    session = KeySession
    ops = [('query', 7), ('point', 6)]
    rule = ('a run is a document with keyframe curves of every kind, whose keyframes are changed (values, times, handles, in '
            'place as well), added, removed and replaced, and asked in between for values, integrals and keyframes, with '
            'objects dropped and read again, reads that fail, failing saves and reopens; every answer is compared with an '
            'independent evaluation of the model; non-trivial when at least three questions and one change were made')


# --------------------------------------------------------------------------
# D12

HALF = bytes.fromhex('060e2b347f7f')


def swapped(b):
    """the two halves of the material number are exchanged in the text of such an id"""
    return b[11] == 0 and b[24:30] == HALF


def ambiguous(b):
    """an id whose text is also the text of another id"""
    return b[11] == 0 and not swapped(b) and bytes([b[19], b[18], b[17], b[16], b[21], b[20]]) == HALF


def id_text(b):
    h = b.hex()
    d1, d2, d3 = (b[16:20][::-1] + b[20:22][::-1] + b[22:24][::-1]).hex(), '', ''
    material = [d1[:8], d1[8:16]]
    rest = [h[48:56], h[56:64]]
    parts = [h[0:8], h[8:16], h[16:24], h[24:32]] + (rest + material if swapped(b) else material + rest)
    return 'urn:smpte:umid:' + '.'.join(parts)


def id_forms(b):
    le = lambda x: int.from_bytes(x, 'little')
    return {'urn': id_text(b), 'text': id_text(b), 'int': int.from_bytes(b, 'big'), 'bytes_le': b, 'SMPTELabel': b[:12],
            'length': b[12], 'instanceHigh': b[13], 'instanceMid': b[14], 'instanceLow': b[15], 'Data1': le(b[16:20]),
            'Data2': le(b[20:22]), 'Data3': le(b[22:24]), 'Data4': b[24:],
            'material': (b[16:20][::-1] + b[20:22][::-1] + b[22:24][::-1] + b[24:]).hex(),
            'dict': {'material': {'Data1': le(b[16:20]), 'Data2': le(b[20:22]), 'Data3': le(b[22:24]), 'Data4': list(b[24:])},
                     'length': b[12], 'instanceHigh': b[13], 'instanceMid': b[14], 'instanceLow': b[15],
                     'SMPTELabel': list(b[:12])}}


FORMS = sorted(id_forms(bytes(32)))


def read_form(m, name):
    if name == 'text':
        return str(m)
    if name == 'dict':
        return m.to_dict()
    if name == 'int':
        return m.int if m.int == int(m) else (m.int, int(m))
    if name == 'material':
        return m.material.hex
    v = getattr(m, name)
    return bytes(v) if isinstance(v, bytearray) else v


def spelled(rng, b):
    """the text of an id as people write it"""
    s = id_text(b)
    how = rng.choice(['plain', 'plain', 'upper', 'bare', 'dots', 'dashes', 'hex', 'mixed'])
    if how == 'upper':
        return s.upper()
    s2 = s.replace('urn:smpte:umid:', '')
    if how == 'bare':
        return s2.replace('.', '')
    if how == 'dots':
        return s2
    if how == 'dashes':
        return s2.replace('.', '-')
    if how == 'hex':
        return '0x' + s2.replace('.', '')
    if how == 'mixed':
        return ''.join(rng.choice([c.upper(), c.lower()]) for c in s)
    return s


def spoiled(rng, b):
    """text that is no id"""
    s = spelled(rng, b)
    digits = [k for k, c in enumerate(s) if c in '0123456789abcdefABCDEF' and (k > 14 or not s.lower().startswith('urn'))
              and not s.startswith('0x', max(0, k - 1), k + 1)]
    k = rng.choice(digits)
    if s.startswith('0x') and k < 2:
        k = 5
    how = rng.choice(['cut', 'extra', 'letter', 'letter', 'sign', 'blank', 'under', 'late'])
    if how == 'cut':
        return s[:k] + s[k + 1:]
    if how == 'extra':
        return s[:k] + rng.choice('0f7') + s[k:]
    if how == 'late':
        k = digits[-1]
    return s[:k] + {'letter': 'g', 'late': 'z', 'sign': '+', 'blank': ' ', 'under': '_'}[how] + s[k + 1:]


class IdSession(TimeSession):
    def __init__(self, *a):
        TimeSession.__init__(self, *a)
        self.free = []              # ids the program keeps: [MobID, bytes]
        self.former = [bytes(32)]

    def fresh_id(self, rng):
        while True:
            b = bytearray(rng.getrandbits(8) for k in range(32))
            r = rng.random()
            if r < 0.5:
                b[:12] = bytes.fromhex('060a2b340101010501010f20')
                b[12:16] = b'\x13\0\0\0'
            if r < 0.2:
                b[11] = 0
                b[24:30] = HALF
            elif r < 0.25:
                b[11] = 0
            elif r > 0.9:
                b[rng.randrange(32)] = rng.choice([0, 255])
            elif r > 0.8:
                b[rng.randrange(16, 24):] = bytes(32)[:32 - 24]
                b = b[:32] + bytes(32 - len(b[:32]))
            if r < 0.3 and rng.random() < 0.3:
                # nearly one of those with halves exchanged
                b[rng.choice([11, 24, 25, 26, 27, 28, 29])] = rng.choice([0, 6, 0x20, 0x7e, 255])
            if rng.random() < 0.1:
                b = bytearray(rng.choice(self.former + [x[1] for x in self.free]))
                if rng.random() < 0.5:
                    b[rng.randrange(32)] ^= 1 << rng.randrange(8)
            if not ambiguous(b):
                return bytes(b)

    def holders(self):
        return [i for i in self.doc.reach() if self.doc.exp.objs[i]['_c'] in ('CMPO', 'SCLP')]

    def pick_holder(self, rng):
        ids = self.holders()
        return rng.choice(ids) if ids else None

    def make(self, rng, b):
        """a new id object with content b"""
        M = adapter.avb.mobid.MobID
        how = rng.choice(['urn', 'text', 'bytes', 'int', 'dict', 'set', 'copy'])
        self.env.count('made from ' + how)
        if how == 'urn':
            return M(spelled(rng, b))
        if how == 'bytes':
            return M(bytes_le=rng.choice([bytes, bytearray])(b))
        if how == 'int':
            return M(int=int.from_bytes(b, 'big'))
        m = M()
        if how == 'dict':
            m.from_dict(id_forms(b)['dict'])
        elif how == 'copy':
            k = rng.choice(FORMS)
            other = M(bytes_le=b)
            m.bytes_le[:] = other.bytes_le
            read_form(other, k)
        elif how == 'text':
            m.urn = spelled(rng, b)
        else:
            for name in ('SMPTELabel', 'length', 'instanceHigh', 'instanceMid', 'instanceLow', 'Data1', 'Data2', 'Data3', 'Data4'):
                setattr(m, name, id_forms(b)[name])
        return m

    def alter(self, rng, m, old):
        """change an id in place, returns its new content"""
        b = self.fresh_id(rng)
        how = rng.choice(['urn', 'int', 'bytes', 'slice', 'material', 'dict', 'field', 'field', 'field', 'one'])
        if how == 'field':
            name, lo, hi = rng.choice([('SMPTELabel', 0, 12), ('length', 12, 13), ('instanceHigh', 13, 14), ('instanceMid', 14, 15),
                                       ('instanceLow', 15, 16), ('Data1', 16, 20), ('Data2', 20, 22), ('Data3', 22, 24),
                                       ('Data4', 24, 32)])
            b = old[:lo] + b[lo:hi] + old[hi:]
            if ambiguous(b):
                return old
            v = id_forms(b)[name]
            setattr(m, name, rng.choice([list, bytearray])(v) if isinstance(v, bytes) else v)
        elif how == 'material':
            b = old[:16] + b[16:]
            if ambiguous(b):
                return old
            m.material = adapter.to_uuid(b[16:])
        elif how == 'one':
            k = rng.randrange(32)
            b = old[:k] + b[k:k + 1] + old[k + 1:]
            if ambiguous(b):
                return old
            m.bytes_le[k] = b[k]
        elif how == 'urn':
            m.urn = spelled(rng, b)
        elif how == 'int':
            m.int = int.from_bytes(b, 'big')
        elif how == 'bytes':
            m.bytes_le = bytearray(b)
        elif how == 'slice':
            m.bytes_le[:] = b
        else:
            m.from_dict(id_forms(b)['dict'])
        self.env.count('changed by ' + how)
        return b

    def compare_forms(self, m, b, names, what):
        want = id_forms(b)
        for n in names:
            r = outcome(lambda: read_form(m, n))
            if r != ('returns', want[n]):
                raise Violation('mob id differs', '%s as %s: %s, expected %s' % (what, n, ref.short(r[1]) if r[0] == 'returns' else
                                                                                  show(r), ref.short(want[n])))

    def do_query(self, rng):
        """read the id of an object in some of its forms"""
        i = self.pick_holder(rng)
        if i is None:
            return
        names = rng.sample(FORMS, rng.randint(1, 4))
        d = self.doc.exp.objs[i]
        self.env.log('forms', names)

        def judge(r):
            want = id_forms(d['mob_id'])
            want = ('returns', [want[n] for n in names])
            if r != want:
                raise Violation('mob id differs', '%s of %s: %s' % (names, d['_c'], ref.short(r[1]) if r[0] == 'returns' else show(r)))
        if not ambiguous(d['mob_id']):
            self.ask(i, rng, lambda o: [read_form(o.mob_id, n) for n in names], judge)

    def do_set(self, rng):
        """give an object another id, or change its id in place"""
        i = self.pick_holder(rng)
        if i is None:
            return
        d = self.doc.exp.objs[i]
        o = self.doc.live(i, rng)
        self.former.append(d['mob_id'])
        if rng.random() < 0.4:
            b = self.fresh_id(rng)
            o.mob_id = self.make(rng, b)
        else:
            b = self.alter(rng, o.mob_id, d['mob_id'])
        d['mob_id'] = b
        self.changed()
        self.doc.edits += 1

    def do_free(self, rng):
        """ids the program keeps for itself"""
        if not self.free or rng.random() < 0.4:
            b = self.fresh_id(rng)
            self.free.append([self.make(rng, b), b])
            del self.free[:-6]
        x = rng.choice(self.free)
        if rng.random() < 0.5:
            x[1] = self.alter(rng, x[0], x[1])
        if not ambiguous(x[1]):
            self.compare_forms(x[0], x[1], rng.sample(FORMS, 3), 'kept id')

    def do_bad(self, rng):
        """text that is no id is refused and changes nothing"""
        i = self.pick_holder(rng)
        x = rng.choice(self.free) if self.free and rng.random() < 0.5 else None
        if x is None and i is None:
            return
        b = x[1] if x else self.doc.exp.objs[i]['mob_id']
        m = x[0] if x else self.doc.live(i, rng).mob_id
        text = spoiled(rng, self.fresh_id(rng))
        made = outcome(lambda: adapter.avb.mobid.MobID(text))
        if made[0] != 'raises':
            raise Violation('text that is no mob id is taken', repr(text))
        r = outcome(lambda: setattr(m, 'urn', text))
        if r[0] != 'raises':
            raise Violation('text that is no mob id is taken', repr(text))
        if bytes(m.bytes_le) != b:
            raise Violation('refused text changed the mob id', '%r: %s, was %s' % (text, bytes(m.bytes_le).hex(), b.hex()))
        self.env.count('texts refused')

    def do_compare(self, rng):
        """equality, order and hash agree with the bytes"""
        ids = [(m, b) for m, b in self.free]
        for i in rng.sample(self.holders(), min(3, len(self.holders()))):
            ids.append((self.doc.live(i, rng).mob_id, self.doc.exp.objs[i]['mob_id']))
        if ids:
            m, b = rng.choice(ids)
            ids.append((self.make(rng, b), b) if not ambiguous(b) else (m, b))
        for m, a in ids:
            for n, b in ids:
                got = (m == n, m != n, m < n, m <= n, m > n, m >= n)
                want = (a == b, a != b, a < b, a <= b, a > b, a >= b)
                if got != want:
                    raise Violation('comparison of mob ids differs', '%s %s: %s' % (a.hex(), b.hex(), got))
                if a == b and hash(m) != hash(n):
                    raise Violation('hash of equal mob ids differs', a.hex())
        if ids and len({m for m, b in ids}) != len({b for m, b in ids}):
            raise Violation('set of mob ids differs')
        if [bytes(x.bytes_le) for x in sorted(m for m, b in ids)] != sorted(b for m, b in ids):
            raise Violation('order of mob ids differs')
        if ids and (ids[0][0] == ids[0][1] or ids[0][0] == None or not ids[0][0] != id_text(ids[0][1])):
            raise Violation('a mob id equals something else')

    def do_lookup(self, rng):
        """an id made anew finds the mob"""
        root = self.doc.exp.objs[self.doc.exp.root]
        want = {}
        for it in root['items']:
            if it['mob']:
                want.setdefault(self.doc.exp.objs[it['mob']]['mob_id'], []).append(it['mob'])
        b = rng.choice(sorted(want) + self.former[-2:])
        if ambiguous(b):
            return
        m = self.doc.f.content.find_by_mob_id(self.make(rng, b))
        if (m is None) != (b not in want) or m is not None and not any(self.doc.live(t) is m for t in want[b]):
            raise Violation('wrong mob found', b.hex())


class D12(TimeProp):
    ID = 'D12'
    quick = {'pure': 2800, 'ext': 850}
    what = 'line'
    session = IdSession
    ops = [('query', 4), ('set', 4), ('free', 2), ('bad', 1.5), ('compare', 1.5), ('lookup', 1.5)]
    rule = ('a run changes the ids of the mobs and clips of a document and ids the program keeps, as a whole and in place, '
            'through every form (text in several spellings, integer, bytes, fields, dictionary, material), offers text that '
            'is no id, and reads, compares, sorts and looks them up in between, with objects dropped and read again, reads '
            'that fail, failing saves and reopens; the model is 32 bytes per id; non-trivial when at least three questions '
            'and one change were made')
