"""Properties of collections and of graphs of objects: lists, attributes, copies, mobs."""
import gc
import random
from collections import OrderedDict

from . import simfs, ref, adapter, seams
from .core import Violation, HarnessError, StepLimit, derive, rng_for, unexpected, where
from .props_doc import Prop, EDIT_OPS, scribble
from .props_fault import StepCounter
from .session import Session, DIR, new_fs, open_doc, other, gen_ops, mark_disk
from .world import Doc, Donor, clone_model, clone, gen_source, compare_dicts, build_model, file_bytes, encodable


class Oops(Exception):
    """raised by the program's own iterable"""


class CollSession(Session):
    """a document whose collections are driven next to plain Python ones"""

    def __init__(self, env, case, doc):
        Session.__init__(self, env, case, doc)
        self.made = {}
        if doc.index is None:
            for i in doc.reach():
                self.made[i] = doc.live(i)
        else:
            self.rev = {i: n for n, i in doc.index.items()}

    def resolve(self, t):
        """the live object of a model id"""
        if not t:
            return None
        if t in self.made:
            return self.made[t]
        return self.doc.f.read_object(self.rev[t])

    def reaching(self, i):
        """ids from which i can be reached (i included)"""
        parents = self.doc.graph()[0]
        seen = {i}
        todo = [i]
        while todo:
            k = todo.pop()
            for p, step in parents.get(k, ()):
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        return seen

    def candidates(self, i, rng, n=4):
        """ids that i may refer to without a cycle, some of them new"""
        bad = self.reaching(i)
        old = [t for t in self.doc.reach() if t not in bad and t != self.doc.exp.root]
        out = rng.sample(old, min(len(old), rng.randint(0, n)))
        for k in range(rng.randint(0 if out else 1, 2)):
            out.append(self.fresh(rng))
        return out

    def fresh(self, rng):
        cid = rng.choice(['FILL', 'FILL', 'ATTR', 'TMCS', 'PRLS'])
        o = adapter.new_live(self.doc.f, ref.CLASSES[cid][1])
        if cid == 'ATTR':
            o['n'] = rng.randint(0, 3)
        elif cid == 'FILL':
            o.length = rng.randint(0, 9)
        return self.adopt(o)

    def adopt(self, o):
        """enter a new object (and what it refers to) into the model"""
        exp = self.doc.exp
        dm = adapter.Dumper(self.doc.time_of)
        dm.next = max(exp.objs) + 1
        i = dm.refid(o)
        while dm.todo:
            t = dm.todo.pop()
            if t not in dm.model.objs:
                dm.model.objs[t] = dm.one(dm.objs[t])
        for t, d in dm.model.objs.items():
            exp.objs[t] = d
            self.made[t] = dm.objs[t]
        return i

    def ident(self, o):
        """model id of a live object"""
        if o is None:
            return 0
        for t, x in self.made.items():
            if x is o:
                return t
        t = self.doc.index.get(getattr(o, 'instance_id', None)) if self.doc.index else None
        if t is None or self.resolve(t) is not o:
            raise Violation('list holds an unknown object', type(o).__name__)
        return t

    def do_reload(self, rng):
        """forget everything the program holds"""
        self.doc.hold.clear()
        if self.doc.index is not None:
            self.made = {t: o for t, o in self.made.items() if t not in self.rev}
        gc.collect()

    def do_gc(self, rng):
        gc.collect()

    def do_save(self, rng):
        path = DIR + '/' + rng.choice(['out.avb', 'two.avb'])
        self.save_to(path, rng.choice(['little', 'big']))

    def saved_model(self, m, data):
        self.last_model = m

    def do_reopen(self, rng):
        """go on with the saved file"""
        if self.last is None:
            return
        m = ref.decode_file(self.fs.get(self.last))
        doc = self.doc
        doc.exp = m
        doc.reopen(self.last)
        doc.exp = m
        doc.touch()
        doc.index = {n: n for n in m.objs}
        self.rev = dict(doc.index)
        self.made = {}
        self.last = None
        mark_disk(doc)
        self.env.count('reopens')

    def do_dump(self, rng):
        self.doc.check_dump(rng)

    def save_to(self, path, order):
        data = self.doc.save(path, order)
        m = self.doc.read_back(data, order)
        self.env.log('saved', len(m.objs))
        self.env.count('saves')
        self.env.state(data)
        self.last = path
        return data


def same_result(a, b):
    """objects by identity, plain values by value and type"""
    if isinstance(a, list) and isinstance(b, list) and not hasattr(a, 'propertydefs') and not hasattr(b, 'propertydefs'):
        return len(a) == len(b) and all(same_result(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_result(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(a, bytearray) and isinstance(b, bytearray):
        return a == b
    if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
        return type(a) is type(b) and a == b
    return False


def outcome(fn):
    try:
        return ('returns', fn())
    except (StepLimit, MemoryError, RecursionError):
        raise
    except Exception as e:
        return ('raises', type(e))


def show(o):
    kind, v = o
    if kind == 'raises':
        return 'raises ' + v.__name__
    return 'returns %s' % (repr(v) if isinstance(v, (int, str, type(None))) else type(v).__name__)


class D03(Prop):
    ID = 'D03'
    quick = {'pure': 4200, 'ext': 1250}
    rule = ('a run drives the reference lists of one document (entries on disk, loaded, dropped or new) with random list '
            'operations, each made on a plain list of the same objects as well, and saves, reopens and collects in '
            'between; non-trivial when at least three operations changed a list')

    OPS = [('append', 4), ('insert', 4), ('extend', 2), ('iadd', 1), ('remove', 3), ('pop', 4), ('del', 3), ('set', 3),
           ('clear', 0.4), ('sort', 2), ('reverse', 1.5), ('slice_set', 2), ('slice_del', 2), ('step_set', 1.5),
           ('step_del', 1.5), ('slice_get', 3), ('get', 2), ('index', 3), ('count', 1.5), ('contains', 2), ('iterate', 2),
           ('reversed', 1), ('len', 1), ('mutating', 1), ('walk', 1)]

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(3, 30), mobs=(1, 3))
        c['src'] = 'bytes' if rng.random() < 0.85 else 'api'
        if rng.random() < 0.4:
            c['misc'] = [rng.choice(['SEQU', 'PRLS', 'TMCS', 'MULD', 'TKDS', 'TKPS', 'TKDA']) for i in range(2)]
        c['ops'] = gen_ops(rng, [('coll', 14), ('reload', 2), ('gc', 0.5), ('save', 1), ('reopen', 0.7), ('dump', 0.5),
                                 ('target', 1.5)], rng.choice([4, 10, 20, 35]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = ListSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            s.do_reload(None)
            doc.check_dump(rng_for('end', case['seed']), 'the list differs')
            s.save_to(DIR + '/final.avb', rng_for('o', case['seed']).choice(['little', 'big']))
            env.nontrivial = s.changed >= 3
            doc.f.close()


class ListSession(CollSession):
    def __init__(self, *a):
        CollSession.__init__(self, *a)
        self.at = None
        self.changed = 0
        self.lst = None

    def do_target(self, rng):
        i, key = self.doc.list_target(rng)
        self.at = (i, key) if i is not None else None
        self.lst = None
        return self.at

    def do_reload(self, rng):
        self.lst = None
        CollSession.do_reload(self, rng)

    def do_reopen(self, rng):
        if self.last is not None:
            self.at = self.lst = None
        CollSession.do_reopen(self, rng)

    def do_coll(self, rng):
        doc = self.doc
        if self.at is None or self.at[0] not in doc.exp.objs or self.at[0] not in doc.reach():
            self.at = None
            if self.do_target(rng) is None:
                return
        i, key = self.at
        d = doc.exp.objs[i]
        if self.lst is None or rng.random() < 0.3:
            obj = doc.live(i, rng)
            self.lst = obj if key == '_l' else getattr(obj, key)
            if self.lst is None:
                raise Violation('list is missing', d['_c'])
        ids = d[key]
        new = self.candidates(i, rng)
        if key == '_l' and rng.random() < 0.15:
            new.append(0)
        op, args, kinds = gen_list_op(rng, ids, new)
        # the real list first, so that its entries need not be loaded for the comparison
        rank = {}

        def rank_of(o):
            return rank.get(id(o), 0)
        live_args = [self.arg(a, k) for a, k in zip(args, kinds)]
        if op == 'sort':
            salt = args[0]
            every = [self.resolve(t) for t in set(ids)]
            rank = {id(o): derive(salt, t) % 4 for o, t in zip(every, set(ids))}
        lst = self.lst
        got = outcome(lambda: perform(lst, op, live_args, rank_of))
        plain = [self.resolve(t) for t in ids]
        before = list(plain)
        live_args = [self.arg(a, k) for a, k in zip(args, kinds)]
        want = outcome(lambda: perform(plain, op, live_args, rank_of))
        self.env.count('list:' + op)
        self.env.log('list', op, args if op != 'sort' else None, want[0], len(plain))
        if got[0] != want[0] or (got[1] is not want[1] if got[0] == 'raises' else not same_result(got[1], want[1])):
            raise Violation('list operation differs: ' + op, '%s of %d entries %s, a plain list %s' % (
                args, len(before), show(got), show(want)))
        if len(lst) != len(plain):
            raise Violation('list operation differs: ' + op, '%d entries after %s, a plain list has %d' % (len(lst), args, len(plain)))
        if len(before) != len(plain) or any(a is not b for a, b in zip(before, plain)):
            self.changed += 1
        nd = clone(d)
        nd[key] = [self.ident(o) for o in plain]
        if not encodable(nd):
            raise HarnessError('list model')
        doc.exp.objs[i] = nd
        doc.touch()
        if rng.random() < 0.5:
            shown = list(lst)
            if len(shown) != len(plain) or any(a is not b for a, b in zip(shown, plain)):
                raise Violation('list operation differs: ' + op, 'entries after %s of %d entries' % (args, len(before)))
        # what is no longer in the document can still be held by the program
        if rng.random() < 0.5:
            self.lst = None

    def arg(self, a, kind):
        if kind == 'plain':
            return a
        if kind == 'obj':
            return self.resolve(a)
        if kind == 'objs':
            return [self.resolve(t) for t in a]
        if kind == 'gen':
            return (self.resolve(t) for t in a)
        if kind == 'tuple':
            return tuple(self.resolve(t) for t in a)
        if kind == 'failing':
            return self.failing(a)
        if kind == 'like':
            return Like(self.resolve(a))
        raise HarnessError(kind)

    def failing(self, ids):
        for t in ids:
            yield self.resolve(t)
        raise Oops()


class Like(object):
    """equals every object of one class, as a program's own matcher may"""
    __hash__ = None

    def __init__(self, obj):
        self.cls = type(obj)

    def __eq__(self, other):
        return type(other) is self.cls

    def __ne__(self, other):
        return type(other) is not self.cls


def gen_list_op(rng, ids, new):
    op = gen_ops(rng, D03.OPS, 1)[0][0]
    n = len(ids)

    def pos(lo=-2, hi=2):
        return rng.randint(-n + lo, n + hi - 1) if rng.random() < 0.25 else (rng.randint(-n, n - 1) if n else 0)

    def bound():
        return rng.choice([None, rng.randint(-n - 2, n + 2), rng.randint(0, n)])

    def some():
        k = rng.choice(['objs', 'objs', 'gen', 'tuple', 'failing'])
        return [new[:rng.randint(0, len(new))] + (rng.sample(ids, min(n, 1)) if rng.random() < 0.2 else []), k]

    def member():
        if ids and rng.random() < 0.8:
            return rng.choice(ids)
        return rng.choice(new)
    x = rng.choice(new)
    # sometimes what is looked for only equals an entry
    how = 'like' if rng.random() < 0.12 else 'obj'
    if op == 'append':
        return op, [x], ['obj']
    if op == 'insert':
        return op, [pos(), x], ['plain', 'obj']
    if op in ('extend', 'iadd'):
        if rng.random() < 0.12 and n < 12:
            return op + '_self', [], []
        v, k = some()
        return op, [v], [k]
    if op in ('remove', 'count', 'contains'):
        return op, [member()], [how]
    if op == 'index':
        args = [member()] + [rng.randint(-n - 1, n + 1) for k in range(rng.choice([0, 0, 1, 2]))]
        return op, args, [how] + ['plain'] * (len(args) - 1)
    if op == 'pop':
        args = [] if rng.random() < 0.4 else [pos()]
        return op, args, ['plain'] * len(args)
    if op in ('del', 'get'):
        return op, [pos()], ['plain']
    if op == 'set':
        return op, [pos(), x], ['plain', 'obj']
    if op == 'slice_set':
        if rng.random() < 0.1 and n < 12:
            return 'slice_set_self', [bound(), bound()], ['plain', 'plain']
        v, k = some()
        return op, [bound(), bound(), v], ['plain', 'plain', k]
    if op == 'slice_del':
        return op, [bound(), bound()], ['plain', 'plain']
    if op in ('step_del', 'slice_get'):
        return op, [bound(), bound(), rng.choice([None, 1, 2, 3, -1, -1, -2, 0])], ['plain'] * 3
    if op == 'step_set':
        a, b, c = bound(), bound(), rng.choice([1, 2, -1, -2, 3])
        k = len(range(*slice(a, b, c).indices(n)))
        if rng.random() < 0.2:
            k += 1
        v = [rng.choice(new + ids) for j in range(k)]
        return op, [a, b, c, v], ['plain'] * 3 + ['objs']
    if op == 'sort':
        return op, [rng.getrandbits(20), rng.random() < 0.4, rng.random() < 0.1], ['plain'] * 3
    if op == 'mutating':
        return op, [rng.randint(0, max(0, n - 1)), rng.choice(['append', 'del', 'insert']), x], ['plain', 'plain', 'obj']
    if op == 'walk':
        return op, [rng.randint(0, n)], ['plain']
    return op, [], []


def perform(lst, op, a, rank):
    if op == 'append':
        return lst.append(a[0])
    if op == 'insert':
        return lst.insert(a[0], a[1])
    if op == 'extend':
        return lst.extend(a[0])
    if op == 'extend_self':
        return lst.extend(lst)
    if op == 'iadd':
        x = lst
        x += a[0]
        return x is lst
    if op == 'iadd_self':
        x = lst
        x += lst
        return x is lst
    if op == 'remove':
        return lst.remove(a[0])
    if op == 'count':
        return lst.count(a[0])
    if op == 'contains':
        return (a[0] in lst, a[0] not in lst)
    if op == 'index':
        return lst.index(*a)
    if op == 'pop':
        return lst.pop(*a)
    if op == 'get':
        return lst[a[0]]
    if op == 'del':
        del lst[a[0]]
        return None
    if op == 'set':
        lst[a[0]] = a[1]
        return None
    if op == 'slice_set':
        lst[a[0]:a[1]] = a[2]
        return None
    if op == 'slice_set_self':
        lst[a[0]:a[1]] = lst
        return None
    if op == 'slice_del':
        del lst[a[0]:a[1]]
        return None
    if op == 'step_del':
        del lst[a[0]:a[1]:a[2]]
        return None
    if op == 'slice_get':
        return list(lst[a[0]:a[1]:a[2]])
    if op == 'step_set':
        lst[a[0]:a[1]:a[2]] = a[3]
        return None
    if op == 'sort':
        if a[2]:
            return lst.sort() if len(lst) < 2 else None
        return lst.sort(key=rank, reverse=a[1])
    if op == 'reverse':
        return lst.reverse()
    if op == 'clear':
        return lst.clear()
    if op == 'iterate':
        return [x for x in lst]
    if op == 'reversed':
        return [x for x in reversed(lst)]
    if op == 'len':
        return (len(lst), bool(lst))
    if op == 'walk':
        # an iterator left in the middle, another one in between
        it = iter(lst)
        out = [next(it) for k in range(a[0])]
        out += list(lst)
        return out + list(it)
    if op == 'mutating':
        out = []
        for k, x in enumerate(lst):
            out.append(x)
            if k == a[0]:
                if a[1] == 'append':
                    lst.append(a[2])
                elif a[1] == 'insert':
                    lst.insert(0, a[2])
                else:
                    del lst[0]
        return out
    raise HarnessError(op)


# --------------------------------------------------------------------------

class D04(Prop):
    ID = 'D04'
    quick = {'pure': 3900, 'ext': 1150}
    rule = ('a run drives the attribute collections of one document with random mapping operations, each made on an '
            'OrderedDict of the same values as well, and saves, reopens and collects in between; non-trivial when at '
            'least three operations changed a collection')

    OPS = [('set', 6), ('get', 2), ('getdef', 2), ('item', 2), ('del', 3), ('pop', 3), ('popdef', 2), ('popitem', 2),
           ('clear', 0.3), ('update', 2), ('updatepairs', 1), ('updatekw', 0.7), ('updateself', 0.2), ('setdefault', 2),
           ('iterate', 1), ('keys', 1), ('values', 1.5), ('items', 1.5), ('contains', 1.5), ('len', 1), ('move', 1.5),
           ('reversed', 1), ('replace', 3), ('walk', 1), ('blob', 1)]

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(3, 30), mobs=(1, 3))
        c['src'] = 'bytes' if rng.random() < 0.85 else 'api'
        c['misc'] = (c['misc'] + ['ATTR', 'ATTR'])[-3:]
        c['ops'] = gen_ops(rng, [('coll', 14), ('reload', 2), ('gc', 0.5), ('save', 1), ('reopen', 0.7), ('dump', 0.5),
                                 ('target', 1.5)], rng.choice([4, 10, 20, 35]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = AttrSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            s.do_reload(None)
            doc.check_dump(rng_for('end', case['seed']), 'the attributes differ')
            s.save_to(DIR + '/final.avb', rng_for('o', case['seed']).choice(['little', 'big']))
            env.nontrivial = s.changed >= 3
            doc.f.close()


NAMES = [u'_', u'OMFI:x', u'a', u'b', u'Größe', u'', u'_COLOR_R', u'd', u'k\u0131', u'A']


class AttrSession(CollSession):
    def __init__(self, *a):
        CollSession.__init__(self, *a)
        self.at = None
        self.changed = 0
        self.held = None

    def do_target(self, rng):
        self.at = self.doc.pick(rng, ('ATTR',))
        self.held = None
        return self.at

    def do_reload(self, rng):
        self.held = None
        CollSession.do_reload(self, rng)

    def do_reopen(self, rng):
        if self.last is not None:
            self.at = self.held = None
        CollSession.do_reopen(self, rng)

    def value(self, rng, i):
        r = rng.random()
        if r < 0.3:
            return [1, rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-1000, 1000)])]
        if r < 0.5:
            return [2, rng.choice([u'', u'text', u'a' * 300, u'\xe9t\xe9', u'x%d' % rng.randint(0, 99)])]
        if r < 0.7:
            return [4, bytes(rng.getrandbits(8) for k in range(rng.choice([0, 1, 5, 300]))).hex()]
        if r < 0.75:
            return [3, 0]
        return [3, rng.choice(self.candidates(i, rng))]

    def to_live(self, tv):
        t, v = tv
        if t == 3:
            return self.resolve(v)
        if t == 4:
            return bytearray(bytes.fromhex(v) if isinstance(v, str) else v)
        return v

    def to_model(self, k, v):
        if isinstance(v, int):
            return [k, 1, int(v)]
        if isinstance(v, str):
            return [k, 2, v]
        if isinstance(v, bytearray):
            return [k, 4, bytes(v)]
        return [k, 3, self.ident(v)]

    def do_coll(self, rng):
        doc = self.doc
        if self.at is None or self.at not in doc.exp.objs or self.at not in doc.reach():
            if self.do_target(rng) is None:
                return
        i = self.at
        d = doc.exp.objs[i]
        if self.held is None or rng.random() < 0.3:
            self.held = doc.live(i, rng)
        live = self.held
        names = [a[0] for a in d['_a']]
        op = gen_ops(rng, D04.OPS, 1)[0][0]

        def name(p=0.8):
            if names and rng.random() < p:
                return rng.choice(names)
            return rng.choice(NAMES)
        args = {'set': lambda: [name(0.2), self.value(rng, i)], 'replace': lambda: [name(0.95), self.value(rng, i)],
                'get': lambda: [name(0.7)], 'getdef': lambda: [name(0.5), self.value(rng, i)],
                'item': lambda: [name()], 'del': lambda: [name()], 'pop': lambda: [name()],
                'popdef': lambda: [name(0.6), self.value(rng, i)], 'popitem': lambda: [rng.random() < 0.6],
                'update': lambda: [[[name(0.3), self.value(rng, i)] for k in range(rng.randint(0, 4))]],
                'updatepairs': lambda: [[[name(0.3), self.value(rng, i)] for k in range(rng.randint(0, 4))]],
                'updatekw': lambda: [[[rng.choice(['a', 'b', 'zz']), self.value(rng, i)] for k in range(2)]],
                'setdefault': lambda: [name(0.5), self.value(rng, i)], 'contains': lambda: [name(0.5)],
                'move': lambda: [name(), rng.random() < 0.5], 'walk': lambda: [rng.randint(0, 3)],
                'blob': lambda: [name(1.0), rng.getrandbits(8)]}.get(op, lambda: [])()
        got = outcome(lambda: self.perform(live, op, args))
        plain = OrderedDict((k, self.to_live([t, v])) for k, t, v in d['_a'])
        old = list(plain.items())
        want = outcome(lambda: self.perform(plain, op, args))
        self.env.count('attr:' + op)
        self.env.log('attr', op, args, want[0], len(plain))
        if got[0] != want[0] or (got[1] is not want[1] if got[0] == 'raises' else not same_result(got[1], want[1])):
            raise Violation('attribute operation differs: ' + op, '%s of %d entries %s, an OrderedDict %s' % (
                args, len(old), show(got), show(want)))
        new = list(plain.items())
        if not same_result(old, new):
            self.changed += 1
        if op == 'blob' and want == ('returns', True):
            self.changed += 1
        nd = clone(d)
        nd['_a'] = [self.to_model(k, v) for k, v in new]
        doc.exp.objs[i] = nd
        doc.touch()
        if len(live) != len(new) or list(live) != [k for k, v in new]:
            raise Violation('attribute operation differs: ' + op, 'names %s after %s, expected %s' % (
                list(live), args, [k for k, v in new]))
        if rng.random() < 0.5 and not same_result(list(live.items()), new):
            raise Violation('attribute operation differs: ' + op, 'values after %s' % args)
        if rng.random() < 0.5:
            self.held = None

    def perform(self, m, op, a):
        v = self.to_live
        if op in ('set', 'replace'):
            m[a[0]] = v(a[1])
            return None
        if op == 'get':
            return m.get(a[0])
        if op == 'getdef':
            return m.get(a[0], v(a[1]))
        if op == 'item':
            return m[a[0]]
        if op == 'del':
            del m[a[0]]
            return None
        if op == 'pop':
            return m.pop(a[0])
        if op == 'popdef':
            return m.pop(a[0], v(a[1]))
        if op == 'popitem':
            return m.popitem(a[0])
        if op == 'clear':
            return m.clear()
        if op == 'update':
            return m.update(OrderedDict((k, v(x)) for k, x in a[0]))
        if op == 'updatepairs':
            return m.update([(k, v(x)) for k, x in a[0]])
        if op == 'updatekw':
            return m.update(**{k: v(x) for k, x in a[0]})
        if op == 'updateself':
            return m.update(m)
        if op == 'setdefault':
            return m.setdefault(a[0], v(a[1]))
        if op == 'iterate':
            return [k for k in m]
        if op == 'keys':
            return list(m.keys())
        if op == 'values':
            return list(m.values())
        if op == 'items':
            return list(m.items())
        if op == 'contains':
            return (a[0] in m, a[0] not in m)
        if op == 'len':
            return (len(m), bool(m))
        if op == 'move':
            return m.move_to_end(a[0], last=a[1])
        if op == 'reversed':
            return list(reversed(m))
        if op == 'walk':
            it = iter(m.items())
            out = [next(it, None) for k in range(a[0])]
            out += list(m.values())
            return out + list(it)
        if op == 'blob':
            x = m[a[0]] if a[0] in m else None
            if isinstance(x, bytearray):
                x.append(a[1])
                return True
            return False
        raise HarnessError(op)


# --------------------------------------------------------------------------

def unfolded(model, i, limit):
    """number of objects a copy of i has (sharing is copied once per place), or None above the limit"""
    memo = {}

    def size(k):
        if k not in memo:
            memo[k] = 0
            memo[k] = 1 + sum(size(t) for t in ref.ref_targets(model.objs[k]) if t)
        return memo[k]
    n = size(i)
    return n if n <= limit else None


def same_tree(ma, a, mb, b):
    """differences between two object graphs, sharing set aside"""
    out = []
    todo = [(a, b)]
    seen = set()
    while todo and not out:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        p, q = ma.objs[x], mb.objs[y]
        if p['_c'] != q['_c']:
            out.append('class %s, expected %s' % (q['_c'], p['_c']))
            break

        def pair(u, v, w):
            if bool(u) != bool(v):
                out.append('%s: %s' % (w, 'object' if v else 'none'))
            elif u:
                todo.append((u, v))
        compare_dicts(p, q, out, pair)
    return out


class D05(Prop):
    ID = 'D05'
    quick = {'pure': 3200, 'ext': 950}
    rule = ('a run copies objects of a document into the same, another opened or a new document, attaches the copies, '
            'edits both sides (values in place as well), closes the source or lets its reads fail (also in the middle of '
            'the copying), and saves and reopens the destination; each side must match its own model; non-trivial when a '
            'copy of at least three objects was made')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(3, 25), mobs=(1, 3))
        c['src'] = rng.choice(['bytes', 'bytes', 'api'])
        c['dag'] = rng.choice([0.1, 0.3])
        d = gen_source(rng, None, size=(1, 10), mobs=(0, 2))
        d['src'] = rng.choice(['bytes', 'bytes', 'api'])
        how = rng.choice(['other', 'other', 'other', 'same'])
        if rng.random() < 0.3:
            d = dict(c, src='bytes')
        ops = gen_ops(rng, [('copy', 6), ('edit_src', 3), ('edit_dst', 3), ('scribble', 1), ('gc', 1), ('drop', 1),
                            ('check', 1), ('save', 1), ('source', 0.8), ('list', 1), ('numbers', 0.8)], rng.choice([3, 6, 12, 20]))
        return {'seed': c['seed'], 'a': c, 'b': d, 'how': how, 'ops': [['copy', rng.getrandbits(40)]] + ops}

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            a = open_doc(env, case['a'], fs, 'a.avb')
            mark_disk(a)
            if case['how'] == 'same':
                b = a
            else:
                b = open_doc(env, case['b'], fs, 'b.avb')
                mark_disk(b)
            s = CopySession(env, case, a, b)
            for name, seed in case['ops']:
                env.log(name)
                env.count('op:' + name)
                getattr(s, 'do_' + name)(rng_for('op', seed))
            s.do_check(rng_for('end', case['seed']))
            s.do_save(rng_for('end2', case['seed']))
            if not s.gone and a is not b:
                s.a.f.close()
            b.f.close()
            env.nontrivial = s.biggest >= 3


class CopySession(object):
    def __init__(self, env, case, a, b):
        self.env, self.case, self.a, self.b = env, case, a, b
        self.fs = a.fs
        self.gone = None            # how the source became unusable
        self.biggest = 0
        self.n = 0

    def do_copy(self, rng, pick=None):
        self.last = None
        if self.gone:
            return
        a, b = self.a, self.b
        for attempt in range(6):
            i = pick or a.pick(rng)
            if i == a.exp.root and rng.random() < 0.9:
                continue
            size = unfolded(a.exp, i, 150)
            if size is not None:
                break
        else:
            return
        o = a.live(i, rng)
        before_a = None
        fault = a.path and rng.random() < 0.15
        if fault:
            self.a.hold.clear()
            self.fs.set_faults([['read', rng.randint(1, 6), rng.choice(['EIO', 'eof']), False]])
            try:
                c = o.copy(b.f)
            except Exception as e:
                self.env.count('copies failed')
                c = None
            self.fs.clear_faults()
            if c is None:
                b.check_dump(rng, 'a failed copy changed the destination')
                a.check_dump(rng, 'a failed copy changed the source')
                c = o.copy(b.f)
        else:
            c = o.copy(b.f)
        self.env.count('copies')
        self.env.log('copied', a.exp.objs[i]['_c'], size)
        self.biggest = max(self.biggest, size)
        # content
        dm = adapter.Dumper(b.time_of)
        dm.next = max(max(a.exp.objs), max(b.exp.objs)) + 1
        t = dm.refid(c)
        dm.run([])
        diffs = same_tree(a.exp, i, dm.model, t)
        if diffs:
            raise Violation('copy differs', diffs[0])
        src = adapter.dump(a.f)
        mine = {id(x) for x in src.live.values()}
        seen = set()
        for k, x in dm.objs.items():
            if x.root is not b.f:
                raise Violation('copy does not belong to the destination', adapter.class_id(x))
            if id(x) in mine:
                raise Violation('copy shares an object with the source', adapter.class_id(x))
            n = getattr(x, 'instance_id', None)
            if n is None or n in seen:
                raise Violation('copy shares an identity number', '%r' % n)
            seen.add(n)
        # attach it
        if rng.random() < 0.15:
            self.scratch(c, i, dm, rng)
            return
        for k, d in dm.model.objs.items():
            b.exp.objs[k] = d
        self.attach(c, t, rng)
        self.last = c, t

    def do_numbers(self, rng):
        """objects of both sides have the same numbers; edits of the copy's lists do not lose pending edits"""
        a, b = self.a, self.b
        if self.gone:
            return
        b.edit_many(rng)
        b.hold.clear()
        for k in range(rng.randint(1, 3)):
            have = [i for i in sorted(a.reach()) if adapter.REFLISTS.get(a.exp.objs[i]['_c']) in a.exp.objs[i]]
            if not have:
                break
            self.do_copy(rng, rng.choice(have))
            if self.last is None:
                continue
            c, t = self.last
            for n, x in self.copied(c):
                d = b.exp.objs[n] = clone(b.exp.objs[n])
                key = adapter.REFLISTS[d['_c']]
                if d[key]:
                    getattr(x, key).reverse()
                    d[key].reverse()
            c = x = self.last = None
            b.touch()
        gc.collect()
        b.check_dump(rng, 'destination differs')

    def copied(self, c):
        out, seen, todo = [], set(), [(self.last[1], c)]
        while todo:
            n, x = todo.pop()
            if not n or n in seen:
                continue
            d = self.b.exp.objs[n]
            if adapter.REFLISTS.get(d['_c']) not in d:
                continue
            seen.add(n)
            out.append((n, x))
            key = adapter.REFLISTS[d['_c']]
            todo.extend(zip(d[key], getattr(x, key)))
        return out

    def attach(self, c, t, rng):
        b = self.b
        root = b.exp.objs[b.exp.root]
        if b.exp.objs[t]['_c'] == 'CMPO' and rng.random() < 0.7:
            it = b.f.content.add_mob(c)
            root['items'].append({'mob': t, 'x': -30000, 'y': -30000, 'keyframe': 0, 'user_placed': True})
        elif b.exp.objs[t]['_c'] in ('ABIN', 'BINF') and rng.random() < 0.8:
            b.f.content = c
            b.exp.root = t
            if self.a is self.b:
                pass
        else:
            w = b.f.create.Attributes()
            w[u'copy'] = c
            k = max(b.exp.objs) + 1
            b.exp.objs[k] = {'_c': 'ATTR', '_a': [[u'copy', 3, t]]}
            old = b.f.content.attributes
            if old is not None and rng.random() < 0.5:
                self.n += 1
                b.f.content.attributes[u'copy%d' % self.n] = c
                b.exp.objs[root['attributes']]['_a'] = [x for x in b.exp.objs[root['attributes']]['_a']] + [[u'copy%d' % self.n, 3, t]]
            else:
                b.f.content.attributes = w
                root['attributes'] = k
        b.touch()
        b.edits += 1

    def scratch(self, c, i, dm, rng):
        """change everything inside a copy that is not kept; the source must not notice"""
        for x in list(dm.objs.values()):
            scribble(x, rng)
        self.env.count('copies scribbled')
        self.a.check_dump(rng, 'an edit of a copy is visible in the source')
        if self.a is not self.b:
            self.b.check_dump(rng, 'an edit of a copy is visible in the destination')

    def do_scribble(self, rng):
        """change everything inside a new object that was copied; its copy must not notice"""
        if self.gone:
            return
        b = self.b
        i = b.pick(rng)
        if i == b.exp.root or unfolded(b.exp, i, 60) is None:
            return
        o = b.live(i, rng)
        c = o.copy(self.a.f)
        first = adapter.Dumper(b.time_of)
        t = first.refid(c)
        first.run([])
        e = o.copy(b.f)
        dm = adapter.Dumper(b.time_of)
        dm.refid(e)
        dm.run([])
        for x in list(dm.objs.values()):
            scribble(x, rng)
        again = adapter.Dumper(b.time_of)
        again.refid(c)
        again.run([])
        diffs = same_tree(first.model, t, again.model, again.ids[id(c)])
        if diffs:
            raise Violation('copies share values', diffs[0])
        b.check_dump(rng, 'an edit of a copy is visible in the source')

    def do_list(self, rng):
        """the copy of a list that is part of an object follows edits like any other"""
        b = self.b
        if b.edit(rng, 'list'):
            b.check_dump(rng, 'destination differs')

    def do_edit_src(self, rng):
        if not self.gone:
            self.a.edit(rng)

    def do_edit_dst(self, rng):
        self.b.edit(rng)

    def do_gc(self, rng):
        gc.collect()

    def do_drop(self, rng):
        self.a.hold.clear()
        self.b.hold.clear()

    def do_check(self, rng):
        if not self.gone and self.a is not self.b:
            self.a.check_dump(rng, 'source differs')
        self.b.check_dump(rng, 'destination differs')

    def do_source(self, rng):
        """the source goes away"""
        if self.a is self.b or self.gone:
            return
        self.a.check_dump(rng, 'source differs')
        self.gone = rng.choice(['closed', 'fails', 'removed'])
        self.env.count('source ' + self.gone)
        if self.gone == 'closed' or self.a.path is None:
            self.a.f.close()
        elif self.gone == 'fails':
            self.a.f.f.close()
        else:
            self.fs.put(self.a.path, b'')
            self.a.f.close()
        self.a.hold.clear()
        gc.collect()

    def do_save(self, rng):
        b = self.b
        path = DIR + '/dst%d.avb' % rng.randint(0, 3)
        order = rng.choice(['little', 'big'])
        data = b.save(path, order)
        b.read_back(data, order)
        self.env.state(data)
        self.env.count('saves')
        if not self.gone and self.a is not self.b and rng.random() < 0.5:
            order = rng.choice(['little', 'big'])
            data = self.a.save(DIR + '/src%d.avb' % rng.randint(0, 3), order)
            self.a.read_back(data, order)


# --------------------------------------------------------------------------

MOB_TYPES = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}


class D06(Prop):
    ID = 'D06'
    quick = {'pure': 4400, 'ext': 1200}
    rule = ('a run changes the mobs of a bin at random (added, inserted, removed, replaced, moved, re-identified by a new '
            'id or by changing the id in place, made duplicates, renamed, retyped), looks up present, former and unknown ids and '
            'iterates all categories in between, with drops, collections, saves and reopens; non-trivial when at least '
            'four changes were made')

    def generate(self, rng, index, tier):
        c = gen_source(rng, None, size=(2, 20), mobs=(1, 6))
        c['src'] = rng.choice(['bytes', 'bytes', 'api'])
        c['misc'] = rng.choice([[], ['SCLP'], ['SCLP', 'SCLP']])
        c['ops'] = gen_ops(rng, [('add', 3), ('remove', 2), ('change', 2), ('reid', 4), ('dup', 1), ('retype', 2), ('rename', 1),
                                 ('lookup', 6), ('cats', 3), ('clip', 2), ('reload', 1.5), ('gc', 0.5), ('save', 0.5),
                                 ('reopen', 0.5), ('wholesale', 0.5), ('edit', 0.7)], rng.choice([5, 10, 20, 35]))
        if c['src'] == 'bytes' and rng.random() < 0.12:
            # some mobs and clips have no id; such a document can be read, not saved
            c['bare'] = True
            c['ops'] = [o for o in c['ops'] if o[0] not in ('save', 'reopen', 'edit')]
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = MobSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
                env.nontrivial = s.changes >= 4
            s.do_cats(rng_for('end', case['seed']))
            for k in range(4):
                s.do_lookup(rng_for('end', case['seed'], k))
            doc.check_dump(None)
            if not case.get('bare'):
                s.save_to(DIR + '/final.avb', 'little')
            doc.f.close()


class MobSession(CollSession):
    def __init__(self, *a):
        CollSession.__init__(self, *a)
        self.changes = 0
        self.former = [bytes(32), bytes([7] * 32)]

    def items(self):
        return self.doc.exp.objs[self.doc.exp.root]['items']

    def mob_ids(self):
        return [it['mob'] for it in self.items() if it['mob']]

    def new_id(self, rng):
        return bytes(rng.getrandbits(8) for k in range(32))

    def do_edit(self, rng):
        self.doc.edit(rng)
        self.changes += 1

    def do_add(self, rng):
        doc = self.doc
        m = doc.f.create.Composition(mob_type=rng.choice(sorted(MOB_TYPES.values())))
        if rng.random() < 0.5:
            m.name = u'mob %d' % rng.randint(0, 9)
        m.usage_code = rng.choice([0, 0, 1, 5])
        if rng.random() < 0.3:
            m.mob_id = adapter.to_mobid(rng.choice(self.former))
        t = self.adopt(m)
        items = self.items()
        how = rng.choice(['add_mob', 'append', 'insert', 'again'])
        it = {'mob': t, 'x': -30000, 'y': -30000, 'keyframe': 0, 'user_placed': True}
        n = rng.randint(0, len(items))
        content = doc.f.content
        if how == 'again' and self.mob_ids():
            t = it['mob'] = rng.choice(self.mob_ids())
            m = doc.live(t, rng)
            how = 'add_mob'
        if how in ('add_mob', 'again'):
            b = content.add_mob(m)
            if b.mob is not m or content.items[-1] is not b:
                raise Violation('add_mob differs')
            items.append(it)
        else:
            b = doc.f.create.BinItem()
            b.mob = m
            if how == 'append':
                content.items.append(b)
                items.append(it)
            else:
                content.items.insert(n, b)
                items.insert(n, it)
        self.note_change()

    def note_change(self):
        self.doc.touch()
        self.changes += 1
        self.doc.edits += 1

    def do_remove(self, rng):
        items = self.items()
        if not items:
            return
        n = rng.randrange(len(items))
        it = items[n]
        if it['mob']:
            self.was(it['mob'])
        content = self.doc.f.content
        how = rng.choice(['del', 'pop', 'remove', 'none'])
        if how == 'none':
            content.items[n].mob = None
            it['mob'] = 0
        else:
            if how == 'del':
                del content.items[n]
            elif how == 'pop':
                content.items.pop(n)
            else:
                content.items.remove(content.items[n])
            del items[n]
        self.note_change()

    def do_change(self, rng):
        """move, replace"""
        items = self.items()
        content = self.doc.f.content
        if len(items) < 2:
            return
        a, b = rng.randrange(len(items)), rng.randrange(len(items))
        how = rng.choice(['swap', 'reverse', 'exchange', 'assign'])
        if how == 'swap':
            content.items[a], content.items[b] = content.items[b], content.items[a]
            items[a], items[b] = items[b], items[a]
        elif how == 'reverse':
            content.items.reverse()
            items.reverse()
        elif how == 'exchange':
            x, y = content.items[a].mob, content.items[b].mob
            content.items[a].mob, content.items[b].mob = y, x
            p, q = items[a]['mob'], items[b]['mob']
            items[a]['mob'], items[b]['mob'] = q, p
        else:
            content.items[a].mob = content.items[b].mob
            if items[a]['mob'] and items[a]['mob'] != items[b]['mob']:
                self.was(items[a]['mob'])
            items[a]['mob'] = items[b]['mob']
        self.note_change()

    def do_wholesale(self, rng):
        items = self.items()
        content = self.doc.f.content
        keep = [n for n in range(len(items)) if rng.random() < 0.6]
        rng.shuffle(keep)
        live = [content.items[n] for n in keep]
        if rng.random() < 0.5:
            content.items = live
        else:
            content.items[:] = live
        self.doc.exp.objs[self.doc.exp.root]['items'] = [items[n] for n in keep]
        self.note_change()

    def do_reid(self, rng, new=None):
        ids = self.mob_ids()
        if not ids:
            return
        t = rng.choice(ids)
        d = self.doc.exp.objs[t]
        self.was(t)
        m = self.doc.live(t, rng)
        how = rng.choice(['assign', 'assign', 'bytes', 'material', 'int', 'back'])
        if 'mob_id' not in d:
            how = 'assign'
        if new is None:
            new = rng.choice(self.former) if how == 'back' else self.new_id(rng)
        if how == 'bytes':
            m.mob_id.bytes_le[:] = new
        elif how == 'material':
            new = d['mob_id'][:16] + new[16:]
            m.mob_id.material = adapter.to_uuid(new[16:])
        elif how == 'int':
            k = rng.randrange(4)
            name = ['length', 'instanceHigh', 'instanceMid', 'instanceLow'][k]
            v = rng.randrange(256)
            new = d['mob_id'][:12 + k] + bytes([v]) + d['mob_id'][13 + k:]
            setattr(m.mob_id, name, v)
        else:
            m.mob_id = adapter.to_mobid(new)
        self.doc.exp.objs[t]['mob_id'] = bytes(new)
        self.note_change()

    def do_dup(self, rng):
        ids = self.mob_ids()
        if ids:
            self.do_reid(rng, self.doc.exp.objs[rng.choice(ids)].get('mob_id'))

    def was(self, t):
        """an id that is looked for later"""
        mid = self.doc.exp.objs[t].get('mob_id')
        if mid is not None:
            self.former.append(mid)

    def do_retype(self, rng):
        ids = self.mob_ids()
        if not ids:
            return
        t = rng.choice(ids)
        m = self.doc.live(t, rng)
        d = self.doc.exp.objs[t]
        k = rng.choice(sorted(MOB_TYPES))
        u = rng.choice([0, 0, 1, 2, 7])
        m.mob_type_id = k
        m.usage_code = u
        d['mob_type_id'], d['usage_code'] = k, u
        self.note_change()

    def do_rename(self, rng):
        ids = self.mob_ids()
        if ids:
            t = rng.choice(ids)
            v = u'name %d' % rng.randint(0, 3)
            self.doc.live(t, rng).name = v
            self.doc.exp.objs[t]['name'] = v
            self.note_change()

    def check_found(self, got, mid, what):
        objs = self.doc.exp.objs
        want = [t for t in self.mob_ids() if objs[t].get('mob_id') == mid]
        self.env.count('lookups of %s ids' % ('present' if want else 'absent'))
        if got is None:
            if want:
                raise Violation('a mob in the bin is not found', '%s: %d mobs have the id' % (what, len(want)))
            return
        if not want:
            raise Violation('lookup gives a mob that is not there', what)
        if not any(self.doc.live(t) is got for t in set(want)):
            raise Violation('lookup gives the wrong mob', what)

    def some_id(self, rng):
        ids = self.mob_ids()
        r = rng.random()
        mid = self.doc.exp.objs[rng.choice(ids)].get('mob_id') if ids and r < 0.55 else None
        if mid is not None:
            return mid
        if r < 0.9:
            return rng.choice(self.former)
        return self.new_id(rng)

    def do_lookup(self, rng):
        mid = self.some_id(rng)
        got = self.doc.f.content.find_by_mob_id(adapter.to_mobid(mid))
        self.env.log('lookup', got is not None)
        self.check_found(got, mid, 'find_by_mob_id')

    def do_clip(self, rng):
        """the source mob of a clip"""
        t = self.doc.pick(rng, ('SCLP',))
        if t is None:
            return
        clip = self.doc.live(t, rng)
        if rng.random() < 0.6:
            mid = self.some_id(rng)
            clip.mob_id = adapter.to_mobid(mid)
            self.doc.exp.objs[t]['mob_id'] = mid
        mid = self.doc.exp.objs[t].get('mob_id')
        if mid is None:
            if clip.mob is not None or clip.track is not None:
                raise Violation('lookup gives a mob that is not there', 'SourceClip.mob of a clip without id')
            return
        if not any(mid):
            return
        self.check_found(clip.mob, mid, 'SourceClip.mob')
        self.check_track(rng, t, clip, mid)

    def check_track(self, rng, t, clip, mid):
        """the source track: of the source mob, with the clip's track number and kind of media"""
        objs = self.doc.exp.objs
        mobs = sorted({m for m in self.mob_ids() if objs[m].get('mob_id') == mid})
        if len(mobs) != 1:
            return
        tracks = objs[mobs[0]]['tracks']
        good = [k for k in tracks if k.get('index') is not None and k.get('component')]
        if good and rng.random() < 0.7:
            k = rng.choice(good)
            clip.track_id = objs[t]['track_id'] = k['index']
            kind = objs[t]['media_kind_id'] = objs[k['component']].get('media_kind_id', 0)
            adapter.set_field(clip, 'media_kind_id', kind, rng)
        name = adapter.media_kind(objs[t]['media_kind_id'])
        want = [n for n, k in enumerate(tracks) if k.get('index') == objs[t]['track_id'] and k.get('component') and
                adapter.media_kind(objs[k['component']].get('media_kind_id', 0)) == name][:1]
        got = clip.track
        live = list(self.doc.live(mobs[0]).tracks)
        if [n for n, k in enumerate(live) if k is got] != want:
            raise Violation('source track differs', '%s, expected %s' % ([n for n, k in enumerate(live) if k is got], want))
        self.env.count('source tracks %s' % ('found' if want else 'absent'))

    def do_cats(self, rng):
        objs = self.doc.exp.objs
        content = self.doc.f.content
        all_ = self.mob_ids()
        if any(objs[t]['mob_type_id'] not in MOB_TYPES for t in all_):
            return
        comp = [t for t in all_ if objs[t]['mob_type_id'] == 1]
        top = [t for t in comp if objs[t]['usage_code'] == 0]
        master = [t for t in all_ if objs[t]['mob_type_id'] == 2]
        for name, got, want in (('mobs', content.mobs, all_), ('toplevel', content.toplevel(), top),
                                ('compositionmobs', content.compositionmobs(), comp),
                                ('mastermobs', content.mastermobs(), master)):
            got = list(got)
            if len(got) != len(want) or any(self.doc.live(t) is not o for t, o in zip(want, got)):
                raise Violation('category differs: ' + name, '%d mobs, expected %d' % (len(got), len(want)))
        self.env.log('cats', len(all_), len(comp), len(top), len(master))


# --------------------------------------------------------------------------

class D08(Prop):
    ID = 'D08'
    quick = {'pure': 3650, 'ext': 850}
    rule = ('a run puts an object of one document into a random reference slot of another (fields, lists, whole lists, '
            'attributes, tracks and other nested elements, mobs, the root), often between documents opened from the same '
            'bytes, saves (must raise with files and documents as before), repairs by undoing or by a copy and saves '
            'again; non-trivial when at least two foreign references were refused')

    def generate(self, rng, index, tier):
        a = gen_source(rng, index, size=(3, 25), mobs=(1, 3))
        a['src'] = rng.choice(['bytes', 'bytes', 'api'])
        b = gen_source(rng, None, size=(3, 15), mobs=(1, 3))
        b['src'] = rng.choice(['bytes', 'bytes', 'api'])
        if rng.random() < 0.45:
            a['src'] = 'bytes'
            b = dict(a)
        return {'seed': a['seed'], 'a': a, 'b': b,
                'ops': gen_ops(rng, [('foreign', 8), ('edit', 1), ('gc', 1), ('drop', 1)], rng.choice([2, 4, 8]))}

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            a = open_doc(env, case['a'], fs, 'a.avb')
            mark_disk(a)
            b = open_doc(env, case['b'], fs, 'b.avb')
            mark_disk(b)
            fs.put(DIR + '/out.avb', b'previous')
            s = ForeignSession(env, case, a, b)
            for name, seed in case['ops']:
                env.log(name)
                env.count('op:' + name)
                getattr(s, 'do_' + name)(rng_for('op', seed))
            b.check_dump(None, 'the other document changed')
            env.nontrivial = s.refused >= 2
            a.f.close()
            b.f.close()


class ForeignSession(object):
    def __init__(self, env, case, a, b):
        self.env, self.case, self.a, self.b = env, case, a, b
        self.fs = a.fs
        self.refused = 0

    def do_edit(self, rng):
        rng.choice([self.a, self.b]).edit(rng)

    def do_gc(self, rng):
        gc.collect()

    def do_drop(self, rng):
        self.a.hold.clear()
        self.b.hold.clear()

    def slot(self, rng):
        """a random reference slot -> (owner id, owner live, get, set, description)"""
        a = self.a
        for attempt in range(10):
            i = a.pick(rng)
            d = a.exp.objs[i]
            obj = a.live(i, rng)
            if d['_c'] == 'ATTR':
                k = rng.choice([x[0] for x in d['_a']] + [u'foreign'])
                return i, obj, (lambda: obj.get(k)), (lambda v: obj.__setitem__(k, v)), 'attribute', (
                    None if k in obj else (lambda: obj.__delitem__(k)))
            steps = adapter.edges(d)
            if d['_c'] in ('PRLS', 'TMCS') or d['_c'] in adapter.REFLISTS and rng.random() < 0.5:
                lst = obj if d['_c'] in ('PRLS', 'TMCS') else getattr(obj, adapter.REFLISTS[d['_c']], None)
                if lst is None:
                    continue
                n = rng.randint(0, len(lst))
                return i, obj, None, (lambda v: lst.insert(n, v)), 'list', (lambda: lst.__delitem__(n))
            if not steps:
                continue
            step, t = rng.choice(steps)
            owner = adapter.follow(obj, [step[:-1]]) if len(step) > 1 else obj
            kind, k = step[-1]
            if kind == 'attr':
                return i, obj, (lambda: getattr(owner, k)), (lambda v: setattr(owner, k, v)), '%s.%s' % (d['_c'], k), None
            return i, obj, (lambda: owner[k]), (lambda v: owner.__setitem__(k, v)), '%s[]' % d['_c'], None
        return None

    def do_foreign(self, rng):
        a, b = self.a, self.b
        r = rng.random()
        if r < 0.1:
            return self.helper(rng)
        if r < 0.17:
            return self.whole_list(rng)
        s = self.slot(rng)
        if s is None:
            return
        i, obj, get, put, what, undo = s
        t = b.pick(rng)
        x = b.live(t, rng)
        if rng.random() < 0.3:
            x = adapter.new_live(b.f, rng.choice(['Filler', 'Attributes', 'ParameterList', 'Timecode', 'Composition']))
        stray = rng.random() < 0.2
        if stray:
            x = self.stray(rng)
        old = get() if get else None
        deep = rng.random() < 0.3
        y = x
        if deep:
            # through a new object of this document
            w = a.f.create.Attributes()
            w[u'in'] = x
            y = w
        put(y)
        if undo is None:
            def undo():
                put(old)
        self.refuse(rng, what)
        if stray or rng.random() < 0.7 or unfolded(b.exp, t, 100) is None:
            undo()
            a.check_dump(rng, 'a refused save changed the document')
            self.accept(rng)
        else:
            # a copy instead: saves, and what was refused before is there
            c = x.copy(a.f)
            if deep:
                w[u'in'] = c
                self.saves(rng)
                undo()
            else:
                undo()
                put(c)
                self.saves(rng)
                undo()
            a.check_dump(rng, 'document differs')
            self.accept(rng)

    def stray(self, rng):
        """an object whose document is closed, collected or was never saved"""
        c = open_doc(self.env, self.case[rng.choice('ab')], self.fs, 'c.avb')
        x = c.live(c.pick(rng), rng)
        if rng.random() < 0.2:
            x = adapter.new_live(c.f, rng.choice(['Filler', 'Attributes', 'Timecode', 'Composition']))
        if rng.random() < 0.8:
            c.f.close()
        self.env.count('objects of documents that are gone')
        return x

    def refuse(self, rng, what):
        a, b = self.a, self.b
        before = self.fs.listing()
        handles = dict(self.fs.fds)
        path = rng.choice([DIR + '/out.avb', DIR + '/new.avb', a.path or DIR + '/out.avb'])
        had = before.get(path)
        try:
            a.f.write(path, rng.choice(['little', 'big']))
        except Exception as e:
            self.refused += 1
            self.env.count('foreign references refused')
            self.env.log('refused', what)
        else:
            raise Violation('a foreign object was stored', what)
        after = self.fs.listing()
        if after != before:
            raise Violation('a refused save touched the disk', '%s' % sorted(set(after.items()) ^ set(before.items()))[0][0])
        if set(self.fs.fds) != set(handles):
            raise Violation('a refused save left a handle open', what)
        if rng.random() < 0.4:
            b.check_dump(rng, 'the other document changed')
            data = b.save(DIR + '/b_out.avb', rng.choice(['little', 'big']))
            b.read_back(data, None)
            self.fs.names.pop(DIR + '/b_out.avb', None)

    def accept(self, rng):
        order = rng.choice(['little', 'big'])
        data = self.a.save(DIR + '/good.avb', order)
        self.a.read_back(data, order)
        self.env.state(data)

    def saves(self, rng):
        try:
            self.a.f.write(DIR + '/copied.avb', rng.choice(['little', 'big']))
        except Exception as e:
            if not clean_copy_can_be_saved(e):
                raise unexpected('save after replacing by a copy', e)

    def helper(self, rng):
        """a track, bin item or other nested element that holds a foreign object"""
        a, b = self.a, self.b
        how = rng.choice(['track', 'item', 'own_track'])
        x = b.live(b.pick(rng), rng)
        if how == 'item':
            lst = a.f.content.items
            h = rng.choice([a, b]).f.create.BinItem()
            h.mob = x
        else:
            i = a.pick(rng, ('CMPO',))
            if i is None:
                return
            lst = a.live(i, rng).tracks
            h = (b if how == 'track' else a).f.create.Track()
            h.index = 1
            h.component = x
        n = rng.randint(0, len(lst))
        lst.insert(n, h)
        self.refuse(rng, how)
        del lst[n]
        a.check_dump(rng, 'a refused save changed the document')
        self.accept(rng)

    def whole_list(self, rng):
        """a reference list of the other document in place of an own one"""
        a, b = self.a, self.b
        i, j = a.pick(rng, ('SEQU', 'MULD')), b.pick(rng, ('SEQU', 'MULD'))
        if i is None or j is None or a.exp.objs[i]['_c'] != b.exp.objs[j]['_c']:
            return
        key = adapter.REFLISTS[a.exp.objs[i]['_c']]
        if not any(b.exp.objs[j].get(key) or ()) or key not in a.exp.objs[i]:
            return
        o, p = a.live(i, rng), b.live(j, rng)
        old = getattr(o, key)
        how = rng.choice(['assign', 'extend', 'slice'])
        if how == 'assign':
            setattr(o, key, getattr(p, key))
        elif how == 'extend':
            n = len(old)
            old.extend(getattr(p, key))
        else:
            n = len(old)
            old[n:] = getattr(p, key)
        self.refuse(rng, 'list ' + how)
        if how == 'assign':
            setattr(o, key, old)
        else:
            del old[n:]
        a.check_dump(rng, 'a refused save changed the document')
        self.accept(rng)


def clean_copy_can_be_saved(e):
    """a copy in a slot that is not made for its class can be refused for other reasons"""
    return 'different file' not in str(e)


# --------------------------------------------------------------------------

class D09(Prop):
    ID = 'D09'
    quick = {'pure': 4400, 'ext': 1200}
    rule = ('a run builds a bin of mobs whose source clips (in tracks, sequences, selectors and effects, some shared) refer '
            'to each other at random - chains, diamonds, cycles, themselves, mobs not in the bin - often saved and '
            'reopened, and advances several dependency traversals alternately with loads and collections in between, '
            'under a step budget; non-trivial when at least three mobs were listed')
    wall_limit = 40

    def generate(self, rng, index, tier):
        n = rng.choice([1, 2, 3, 5, 8, 12])
        shape = rng.choice(['dag', 'dag', 'any', 'any', 'chain', 'ring', 'dense'])
        edges = []
        for i in range(n):
            k = rng.randint(0, 3) if shape != 'dense' else rng.randint(0, n)
            for j in range(k):
                if shape == 'dag':
                    t = rng.randint(i + 1, n) if i + 1 < n else n
                else:
                    t = rng.randint(0, n)       # n: a mob that is not there
                edges.append([i, t, rng.randrange(6)])
            if shape in ('chain', 'ring') and (i + 1 < n or shape == 'ring'):
                edges.append([i, (i + 1) % n, rng.randrange(6)])
        rng.shuffle(edges)
        return {'seed': rng.getrandbits(40), 'size': n, 'misc': edges, 'src': rng.choice(['api', 'bytes', 'bytes']),
                'order': rng.choice(['little', 'big']), 'perm': rng.random() < 0.7,
                'ops': gen_ops(rng, [('start', 3), ('next', 8), ('finish', 3), ('gc', 1), ('load', 1)],
                               rng.choice([3, 8, 15]))}

    def build(self, case, env, fs):
        """-> (file, ids in bin order, graph by bin position)"""
        n = case['size']
        rng = rng_for('d09', case['seed'])
        f = adapter.avb.file.AVBFile()
        perm = list(range(n))
        if case['perm']:
            rng.shuffle(perm)
        ids = [bytes(rng.getrandbits(8) for k in range(32)) for i in range(n)] + [bytes(rng.getrandbits(8) for k in range(32))]
        mobs = []
        graph = {i: set() for i in range(n)}
        for i in range(n):
            m = f.create.Composition(mob_type=rng.choice(['CompositionMob', 'MasterMob', 'SourceMob']))
            m.name = u'mob%d' % i
            m.mob_id = adapter.to_mobid(ids[i])
            mobs.append(m)
        leaf = {}
        for a, t, how in case['misc']:
            if a >= n or t > n:
                continue
            if t < n:
                graph[a].add(t)
            if how == 5 and t in leaf:
                # one clip used in two places
                c = leaf[t]
            else:
                c = f.create.SourceClip(edit_rate=25, media_kind='picture')
                c.length = rng.choice([10, 10, 10, 0, 1, 86400])
                c.track_id = rng.choice([1, 1, 1, 0, 7])
                c.start_time = rng.choice([0, 0, 5, -3])
                if rng.random() < 0.3:
                    c.name = u'clip'
                c.mob_id = adapter.to_mobid(ids[t] if t < n or rng.random() < 0.7 else bytes(32))
                leaf[t] = c
            self.nest(f, mobs[a], c, how, rng)
        for i in perm:
            f.content.add_mob(mobs[i])
        if case['src'] == 'bytes':
            path = DIR + '/built.avb'
            f.write(path, case['order'])
            f = adapter.avb.file.AVBFile(path, use_ext=env.mode == 'ext')
            del mobs
        return f, ids, graph, perm

    def nest(self, f, mob, c, how, rng):
        t = f.create.Track()
        t.index = len(mob.tracks) + 1
        kind = 'picture'
        if how in (1, 2, 3):
            s = f.create.Sequence(edit_rate=25, media_kind=kind)
            s.components.append(f.create.Filler(edit_rate=25, media_kind=kind))
            s.components.append(c)
            if how == 2:
                s2 = f.create.Sequence(edit_rate=25, media_kind=kind)
                s2.components.append(s)
                s = s2
            if how == 3:
                sel = f.create.Selector(edit_rate=25, media_kind=kind)
                sel.is_ganged = True
                st = f.create.Track()
                st.index = 1
                st.component = s
                sel.tracks.append(st)
                sel.selected = 0
                sel.length = 10
                s = sel
            c = s
        if how == 4:
            a = mob.attributes
            if a is None:
                a = mob.attributes = f.create.Attributes()
            a[u'clip%d' % len(a)] = c
            if rng.random() < 0.5:
                return
            t.component = c
        else:
            t.component = c
        mob.tracks.append(t)

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            f, ids, graph, perm = self.build(case, env, fs)
            if case['size'] == 0:
                return
            pos = {i: k for k, i in enumerate(perm)}
            n = case['size']
            graph = self.effective(f, case, env, graph, ids)
            budget = 3000 + 2500 * (n + 2) * (len(case['misc']) + 2)
            running = []
            index = {ids[i]: i for i in range(n)}
            with StepCounter(budget * (len(case['ops']) + 2)):
                for name, seed in case['ops']:
                    rng = rng_for('op', seed)
                    env.count('op:' + name)
                    if name == 'gc':
                        gc.collect()
                    elif name == 'load':
                        list(f.content.items[rng.randrange(n)].mob.tracks)
                    elif name == 'start' or not running:
                        i = rng.randrange(n)
                        mob = f.content.items[pos[i]].mob
                        running.append([i, iter(mob.dependant_mobs()), []])
                        del mob
                    else:
                        r = rng.choice(running)
                        if self.advance(r, 1 if name == 'next' else 10 ** 6, f, n, index):
                            running.remove(r)
                            self.judge(env, r, graph)
                for r in running:
                    self.advance(r, 10 ** 6, f, n, index)
                    self.judge(env, r, graph)
                i = rng_for('last', case['seed']).randrange(n)
                r = [i, iter(f.content.items[pos[i]].mob.dependant_mobs()), []]
                self.advance(r, 10 ** 6, f, n, index)
                self.judge(env, r, graph)
            f.close()

    def effective(self, f, case, env, graph, ids):
        return graph

    def advance(self, r, k, f, n, index):
        for j in range(k):
            try:
                m = next(r[1])
            except StopIteration:
                return True
            i = index.get(bytes(m.mob_id.bytes_le))
            if i is None:
                raise Violation('a mob of another bin is listed', '')
            if f.content.find_by_mob_id(m.mob_id) is not m:
                raise Violation('listed mob is another instance', '')
            r[2].append(i)
            if len(r[2]) > n:
                raise Violation('the listing does not end', '%d mobs of %d' % (len(r[2]), n))
        return False

    def judge(self, env, r, graph):
        start, _, got = r
        env.log('deps', start, got)
        if len(got) >= 3:
            env.nontrivial = True
        want = set()
        todo = [start]
        while todo:
            for t in graph[todo.pop()]:
                if t not in want:
                    want.add(t)
                    todo.append(t)
        cyclic = self.cyclic(graph, {start} | want)
        want.discard(start)
        if start in got:
            raise Violation('the mob itself is listed', '')
        if len(set(got)) != len(got):
            raise Violation('a mob is listed twice', '%s' % got)
        if set(got) != want:
            raise Violation('dependencies differ', '%s, expected %s' % (sorted(got), sorted(want)))
        if not cyclic:
            env.count('acyclic listings')
            at = {t: k for k, t in enumerate(got)}
            for t in got:
                for u in graph[t]:
                    if at[u] > at[t]:
                        raise Violation('a mob comes before its sources', '%s' % got)
        else:
            env.count('listings with cycles')

    def cyclic(self, graph, nodes):
        state = {}

        def visit(i):
            state[i] = 1
            for t in graph[i]:
                if state.get(t) == 1 or t not in state and visit(t):
                    return True
            state[i] = 2
            return False
        return any(i not in state and visit(i) for i in sorted(nodes))
