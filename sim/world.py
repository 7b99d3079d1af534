"""One simulated session: a live document, the reference model of what it must
contain, and the operations a program performs on it.

Every operation is [name, seed]; what it does is a function of the seed and the
model alone, so operations can be dropped from a history while it is minimised.
"""
import gc
import io
import os
import pathlib
import random

from . import simfs, ref, adapter
from .core import Violation, HarnessError, derive, rng_for, unexpected, where

SIMPLE = ('u8', 's8', 'u16', 's16', 'u32', 's32', 'u64', 's64', 'bool', 'double', 'exp10', 'str', 'nstr', 'str8',
          'bytes', 'uuid', 'mobid', 'date', 'fourcc')


def simple(kind):
    return kind in SIMPLE or (kind or '').startswith(('bytes', 'ints:'))


class Donor(ref.Builder):
    """generates replacement content for an existing model"""

    def __init__(self, rng, model, budget, reach, big=False):
        ref.Builder.__init__(self, rng, size=budget, big=big)
        self.maxdepth = 6
        self.many = min(self.many, 1) if len(reach) < 40 and ref.visits(ref.prune(clone_model(model))) < 60 else 0
        self.base = model
        self.fresh = {}
        self.next = max(model.objs) + 1
        for i in sorted(reach):
            self.by_cls.setdefault(model.objs[i]['_c'], []).append(i)
        self.mobids = [model.objs[i]['mob_id'] for i in self.by_cls.get('CMPO', ()) if 'mob_id' in model.objs[i]]

    def new(self, cid):
        self.budget -= 1
        self.depth += 1
        g = ref.Gen(self.rng, self)
        g.cls = cid
        d = {'_c': cid}
        try:
            ref.CLASSES[cid][0](g, d)
        finally:
            self.depth -= 1
        i = self.next
        self.next += 1
        self.fresh[i] = d
        self.by_cls.setdefault(cid, []).append(i)
        return i

    def bin_items(self, v, d, item):
        d['items'] = []
        for i in range(self.rng.randint(0, 3)):
            it = {}
            item(it)
            d['items'].append(it)

    def bin_attributes(self, v, d):
        ref.KINDS[('ABIN', 'attributes')] = 'ref'
        d['attributes'] = self.pick(('ATTR',), null=0.0)

    def content(self, cid):
        g = ref.Gen(self.rng, self)
        g.cls = cid
        d = {'_c': cid}
        ref.CLASSES[cid][0](g, d)
        return d


def clone(d):
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    if isinstance(d, list):
        return [clone(x) for x in d]
    return d


def clone_model(m):
    n = ref.Model()
    n.__dict__.update({k: v for k, v in m.__dict__.items() if k in ('root', 'last_save', 'creator', 'order')})
    n.objs = {i: clone(d) for i, d in m.objs.items()}
    return n


def encodable(d):
    """d survives encoding by the reference codec"""
    try:
        b = ref.encode_object(d, 'little')
        if d['_c'] == 'SLCT' and not 0 <= d['selected'] < len(d['tracks']):
            return False
        if d['_c'] == 'ASPI' and len(d['plugins']) != 1:
            return False
        return len(b) < 1 << 20
    except Exception:
        return False


SAMPLES = []


def load_samples(folder='/repo/tests/test_files/retimes'):
    """bins written by the original application, as models"""
    try:
        for name in sorted(os.listdir(folder)):
            if name.endswith('.avb'):
                with open(os.path.join(folder, name), 'rb') as f:
                    SAMPLES.append(ref.decode_file(f.read()))
    except (OSError, ref.RefError):
        pass


def build_model(case):
    rng = rng_for('model', case['seed'])
    if case.get('sample') and SAMPLES:
        m = clone_model(SAMPLES[case['sample'] % len(SAMPLES)])
        m.order = case.get('order', 'little')
        m.last_save = case.get('last_save', 1500000000)
        m.creator = case.get('creator', m.creator)
        return m
    b = ref.Builder(rng, size=case.get('size', 10), order=case.get('order', 'little'), misc=case.get('misc'),
                    big=case.get('big', False), dag=case.get('dag', 0.35), long=case.get('long'))
    m = b.build(case.get('nmobs'), root=case.get('root', 'ABIN'))
    m.last_save = case.get('last_save', 1500000000)
    m.creator = case.get('creator', u'pyavb sim')
    for i in list(m.objs):
        d = m.objs[i]
        if d['_c'] == 'ATTR':
            # a few attributes hold no object
            for a in d['_a']:
                if a[1] == 1 and a[2] == 7 and rng.random() < 0.3:
                    a[1], a[2] = 3, 0
        if case.get('bare'):
            # as older versions wrote them: the extension that all others have is missing
            for k in ('mob_id', 'name_utf8'):
                if k in d and rng.random() < 0.5:
                    del d[k]
                    if k == 'mob_id':
                        d['_legacy'] = (rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16))
    return m


def file_bytes(case, model):
    """(bytes, spans, refmap) of the model in the case's byte order and object order"""
    rng = rng_for('perm', case['seed'])
    perm = None
    if case.get('perm'):
        perm = sorted(model.objs)
        rng.shuffle(perm)
    return ref.encode_file(model, case.get('order', 'little'), perm,
                           rng_for('spell', case['seed']) if case.get('spell') else None)


def gen_source(rng, index=None, size=(1, 30), mobs=(0, 4)):
    """the part of a case that describes the document"""
    n = len(ref.MISC)
    k = rng.randint(0, 3)
    if index is None or rng.random() < 0.3:
        misc = [rng.choice(ref.MISC) for i in range(k)]
    else:
        misc = [ref.MISC[(index * 3 + j) % n] for j in range(max(1, k))]
    long = rng.choice(ref.LONG) if rng.random() < 0.05 else None
    if long in ref.MISC:
        misc = misc[:2] + [long]
    return {'seed': rng.getrandbits(40), 'size': rng.randint(*size), 'nmobs': rng.randint(*mobs), 'misc': misc, 'long': long,
            'order': rng.choice(['little', 'little', 'big']), 'perm': rng.random() < 0.6,
            'buffering': rng.choice([8192, 8192, 1, 7, 64, 513, 1 << 16]),
            'short': rng.random() < 0.4, 'big': rng.random() < 0.06,
            'root': 'BINF' if rng.random() < 0.12 else 'ABIN',
            'creator': rng.choice([u'pyavb sim'] * 4 + [u'', u'x', u'Media Composer 8.4.5 \xe9t\xe9 x' [:30], u'c' * 29, u'd' * 30]),
            'dag': rng.choice([0.1, 0.35, 0.6]), 'spell': rng.random() < 0.4, 'sample': rng.choice([0] * 39 + [rng.randint(1, 50)])}


def enlarge(c, rng, ops):
    """more objects than a case has usually: what happens past a limit of some kind"""
    c.update(size=rng.randint(2600, 3600), nmobs=rng.choice([200, 400]), dag=0.003, big=False, short=False,
             buffering=rng.choice([8192, 513]), root='ABIN', large=True, sample=0, long=None)
    c['ops'] = ops
    return c


def spelled(path, rng):
    """a program can give a path as text, bytes or a path object"""
    r = rng.random()
    return os.fsencode(path) if r < 0.1 else pathlib.PurePosixPath(path) if r < 0.2 else path


class Doc(object):
    """a live document with its model"""

    def __init__(self, env, case, fs, path=None, mode=None, tag=''):
        self.env = env
        self.case = case
        self.fs = fs
        self.path = path
        self.tag = tag
        self.hold = {}
        self.f = None
        self.exp = None
        self.edits = 0
        self.index = None           # on-disk index -> model id of the file it was opened from
        self.use_ext = (mode or env.mode) == 'ext'
        self.saved = 0
        self.iters = []
        self._cache = None
        self.time_of = adapter.stamp
        self.route = True           # look for objects along random paths

    # ---- getting a document
    def open_bytes(self, model, data, refmap):
        self.fs.put(self.path, data)
        self.exp = clone_model(model)
        self.index = {n: i for i, n in refmap.items()}
        self.f = self.open(self.path)

    def open(self, path):
        b = self.case.get('buffering', 8192)
        path = spelled(path, rng_for('spelled', self.case.get('seed', 0), self.saved))
        return adapter.avb.file.AVBFile(path, buffering=b, use_ext=self.use_ext)

    def open_stream(self, model, data, refmap, stream=None):
        self.exp = clone_model(model)
        self.index = {n: i for i, n in refmap.items()}
        self.f = adapter.avb.file.AVBFile(stream or io.BytesIO(data), use_ext=self.use_ext)

    def create(self, model):
        m = clone_model(model)
        self.f, objs, self.exp = adapter.create_document(m)
        self.exp.creator = self.f.creator_version
        self.exp.last_save = None
        self.index = None

    def reopen(self, path):
        old = self.f
        self.f = self.open(path)
        self.path = path
        self.hold = {}
        self.index = None
        self.iters = []
        self.exp = clone_model(self.exp)
        r = adapter.reachable(self.exp)
        self.exp.objs = {i: d for i, d in self.exp.objs.items() if i in r}
        self.touch()
        if old is not None:
            old.close()

    # ---- the model
    def touch(self):
        self._cache = None

    def graph(self):
        if self._cache is None:
            parents = {}
            seen = [self.exp.root]
            have = {self.exp.root}
            for i in seen:
                for step, t in adapter.edges(self.exp.objs[i]):
                    if t:
                        parents.setdefault(t, []).append((i, step))
                        if t not in have:
                            have.add(t)
                            seen.append(t)
            self._cache = (parents, sorted(have))
        return self._cache

    def reach(self):
        return self.graph()[1]

    def pick(self, rng, classes=None):
        ids = self.reach()
        if classes:
            ids = [i for i in ids if self.exp.objs[i]['_c'] in classes]
        return rng.choice(ids) if ids else None

    # ---- live objects
    def live(self, i, rng=None):
        """the live object of model id i, by a (random) path from the root"""
        parents, ids = self.graph()
        rng = rng or random.Random(i)
        steps = []
        k = i
        while k != self.exp.root:
            ps = parents[k]
            p, step = ps[rng.randrange(len(ps))] if self.route else ps[0]
            steps.append((k, step))
            k = p
        obj = self.f.content
        self.note(k, obj)
        for k, step in reversed(steps):
            obj = adapter.follow(obj, [step])
            if obj is None:
                raise Violation('object is missing', '%s object %d reads as none' % (self.exp.objs[k]['_c'], k))
            self.note(k, obj)
        return obj

    def note(self, i, obj):
        h = self.hold.get(i)
        if h is not None and h is not obj:
            raise Violation('two instances of one object', '%s object %d' % (self.exp.objs[i]['_c'], i))

    def keep(self, i, obj):
        for j, o in self.hold.items():
            if o is obj and j != i:
                raise Violation('two objects share an instance', '%d and %d' % (i, j))
        self.hold[i] = obj

    # ---- checks
    def check_object(self, i, rng):
        obj = self.live(i, rng)
        d = self.exp.objs[i]
        want = ref.CLASSES[d['_c']][1]
        if type(obj).__name__ != want or adapter.class_id(obj) != d['_c']:
            raise Violation('wrong class', 'object %d is %s, expected %s' % (i, type(obj).__name__, want))
        dm = adapter.Dumper(self.time_of)
        got = dm.one(obj)
        out = []

        def pair(a, b, where_):
            if bool(a) != bool(b):
                out.append('%s: %s' % (where_, 'none' if not b else 'an object'))
            elif a:
                o = dm.objs[b]
                if adapter.class_id(o) != self.exp.objs[a]['_c']:
                    out.append('%s refers to %s, expected %s' % (where_, adapter.class_id(o), self.exp.objs[a]['_c']))
                self.note(a, o)
        compare_dicts(d, got, out, pair)
        if not out:
            out = adapter.derived(d, obj)
        if out:
            raise Violation('value differs', out[0])
        return obj

    def check_dump(self, rng=None, what='live document differs'):
        g = adapter.dump(self.f, rng, self.time_of)
        diffs = ref.same_models(self.exp, g)
        if diffs:
            raise Violation(what, '; '.join(diffs[:3]))
        for i, o in self.hold.items():
            pass
        return g

    def read_back(self, data, order, check=None):
        """decode saved bytes with the reference codec and compare"""
        try:
            m = ref.decode_file(data)
        except ref.RefError as e:
            raise Violation('saved file is malformed', str(e))
        if order is not None and m.order != order:
            raise Violation('saved file is in the wrong byte order', m.order)
        diffs = ref.same_models(self.exp, m)
        if diffs:
            raise Violation('saved file differs', '; '.join(diffs[:3]))
        return m

    def save(self, path, order):
        self.f.write(path, order)
        self.saved += 1
        data = self.fs.get(path)
        if data is None:
            raise Violation('save left no file', path)
        return data

    # ---- edits
    def apply(self, i, nd, donor, live_edit, rng, extra=()):
        """replace the model of object i by nd and edit the live object the same way"""
        fresh = donor.fresh if donor is not None else {}
        need = []
        seen = set()
        todo = [t for t in list(ref.ref_targets(nd)) + list(extra) if t]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in fresh:
                need.append(t)
                todo.extend(x for x in ref.ref_targets(fresh[t]) if x)
            else:
                todo.extend(x for x in ref.ref_targets(self.exp.objs[t]) if x)
        if i in seen:
            return False            # would make a cycle
        if not encodable(nd) or not all(encodable(fresh[t]) for t in need):
            return False
        obj = self.live(i, rng)
        objs = LazyLive(self, rng, obj, i)
        # find everything first, the edit changes the paths
        for t in sorted(set(ref.ref_targets(nd)) | set(extra) | set(x for t in need for x in ref.ref_targets(fresh[t]))):
            if t and t not in fresh:
                objs[t]
        if need:
            need.sort()
            sub = ref.Model()
            sub.objs = {t: clone(fresh[t]) for t in need}
            for t in need:
                objs.made[t] = adapter.made_from(self.f, sub.objs[t], objs)
            # what the constructors filled in
            dm = adapter.Dumper(self.time_of)
            for t in need:
                dm.ids[id(objs.made[t])] = t
                dm.objs[t] = objs.made[t]
            for t, o in objs.found.items():
                dm.ids[id(o)] = t
                dm.objs[t] = o
            dm.next = max(max(self.exp.objs), donor.next) + 1
            lo = dm.next
            dm.todo = list(need)
            # existing objects must not be walked
            dm.model.objs = {}
            existing = set(objs.found)
            while dm.todo:
                t = dm.todo.pop()
                if t in dm.model.objs or t in existing:
                    continue
                dm.model.objs[t] = dm.one(dm.objs[t])
            for t in need:
                adapter.merge_defaults(sub.objs[t], dm.model.objs[t])
            for t in dm.model.objs:
                if t >= lo:
                    sub.objs[t] = dm.model.objs[t]
            for t, d in sub.objs.items():
                self.exp.objs[t] = d
        live_edit(obj, objs)
        self.exp.objs[i] = nd
        self.touch()
        if i in self.hold:
            pass
        self.edits += 1
        self.env.count('edit:' + nd['_c'])
        if need:
            self.env.count('objects created', len(need))
            # extra objects made by constructors of helpers are found later
        return True

    def edit(self, rng, kind=None):
        kind = kind or rng.choice(['set', 'set', 'all', 'nested', 'nested', 'list', 'attr', 'ref', 'ref', 'mob'])
        for attempt in range(4):
            ok = getattr(self, 'edit_' + kind)(rng)
            if ok:
                self.env.log('edit', kind)
                return True
            kind = rng.choice(['set', 'all', 'nested', 'ref', 'mob'])
        return False

    def donor(self, rng, budget=0):
        return Donor(rng, self.exp, budget, self.reach(), big=self.case.get('big', False) and rng.random() < 0.3)

    def plain_edit(self, rng, i, donor=None):
        """new values for some plain fields of object i -> (fields, changed names)"""
        d = self.exp.objs[i]
        if d['_c'] in ('ATTR', 'PRLS', 'TMCS'):
            return None
        dn = (donor or self.donor(rng)).content(d['_c'])
        keys = [k for k in sorted(d) if k in dn and not k.startswith('_') and
                simple(ref.KINDS.get((d['_c'], k)) or ('choice' if k not in ('mob_type_id', 'large_bin') else 'u8'))
                and not isinstance(d[k], (dict,)) and not (isinstance(d[k], list) and d[k] and isinstance(d[k][0], dict))]
        keys = [k for k in keys if k not in ref.REF_FIELDS or k == 'value']
        if d['_c'] == 'PRIT':
            keys = [k for k in keys if k != 'value']
        if not keys:
            return None
        keys = rng.sample(keys, min(len(keys), rng.randint(1, 3)))
        nd = clone(d)
        for k in keys:
            nd[k] = dn[k]
        return (nd, keys) if encodable(nd) else None

    def edit_many(self, rng, share=1.0):
        """change plain fields of very many objects"""
        donor = self.donor(rng)
        ids = list(self.reach())
        rng.shuffle(ids)
        for i in ids[:int(share * len(ids)) + 1]:
            edit = self.plain_edit(rng, i, donor)
            if edit is None or i == self.exp.root:
                continue
            nd, keys = edit
            obj = self.live(i, rng)
            for k in keys:
                adapter.set_field(obj, k, adapter.to_live(self.f, nd, k, nd[k], {}), rng)
            self.exp.objs[i] = nd
            self.edits += 1
        self.env.count('edits of very many objects')

    def edit_set(self, rng):
        i = self.pick(rng)
        edit = self.plain_edit(rng, i)
        if edit is None:
            return False
        nd, keys = edit

        def go(obj, objs):
            for k in keys:
                adapter.set_field(obj, k, adapter.to_live(self.f, nd, k, nd[k], objs), rng)
        return self.apply(i, nd, None, go, rng)

    def edit_all(self, rng):
        i = self.pick(rng)
        d = self.exp.objs[i]
        if i == self.exp.root:
            return False
        don = self.donor(rng, rng.choice([0, 0, 2, 5]))
        dn = don.content(d['_c'])
        nd = clone(d)
        if d['_c'] in ('ATTR', 'PRLS', 'TMCS'):
            nd = dn
        else:
            for k in dn:
                nd[k] = dn[k]

        def go(obj, objs):
            if d['_c'] in ('ATTR', 'PRLS', 'TMCS'):
                adapter.assign(self.f, obj, nd, objs)
            else:
                keys = [k for k in sorted(dn) if not k.startswith('_')]
                rng.shuffle(keys)
                adapter.assign(self.f, obj, nd, objs, keys)
        return self.apply(i, nd, don, go, rng)

    def edit_nested(self, rng):
        cands = []
        for i in self.reach():
            d = self.exp.objs[i]
            if d['_c'] not in ('ATTR', 'PRLS', 'TMCS'):
                for k in sorted(d):
                    if isinstance(d[k], list) and not (k in ref.REF_FIELDS) and not k.startswith('_'):
                        if d[k] and isinstance(d[k][0], dict):
                            cands.append((i, k))
        if not cands:
            return False
        i, key = rng.choice(cands)
        d = self.exp.objs[i]
        don = self.donor(rng, rng.choice([0, 0, 3]))
        pool = []
        for n in range(4):
            dn = don.content(d['_c'])
            if d['_c'] in ('PRCL', 'PRIT') and dn.get('value_type') != d.get('value_type'):
                continue
            pool.extend(dn.get(key) or [])
        nd = clone(d)
        path = [key]
        lst = nd[key]
        # descend into lists of lists now and then
        inner = [(n, k) for n, it in enumerate(lst) for k in sorted(it)
                 if isinstance(it[k], list) and it[k] and isinstance(it[k][0], dict)]
        if inner and rng.random() < 0.5:
            n, k = rng.choice(inner)
            path += [n, k]
            lst = lst[n][k]
            pool = [x for it in pool for x in (it.get(k) or [])]
        fixed = key in ('sifted_settings', 'pixel_layout') or d['_c'] in ('EQMB', 'DIDD', 'CDCI', 'MPGI', 'JPED', 'RGBA')
        actions = ['field', 'field', 'swap']
        if not fixed:
            actions += ['del', 'add', 'whole']
        act = rng.choice(actions)
        name = adapter.helper_name(d['_c'], path[-1])
        n = rng.randrange(len(lst))
        changes = []
        if act == 'field':
            it = lst[n]
            for k in sorted(it):
                opts = [x[k] for x in pool if k in x and x.get('type') == it.get('type')]
                if isinstance(it[k], list) and it[k] and isinstance(it[k][0], dict) or k.startswith('_') or not opts:
                    continue
                if k == 'type' and ('value' in it) or k == 'lock_number':
                    continue
                if k in ('value_type', 'plugin_type') or (k == 'value' and isinstance(it[k], float) is not isinstance(opts[0], float)):
                    continue
                if rng.random() < 0.5 or not changes:
                    changes.append((k, rng.choice(opts)))
            if not changes:
                return False
            for k, v in changes:
                it[k] = clone(v)
        elif act == 'swap':
            lst.reverse()
        elif act == 'del':
            del lst[n]
        elif act == 'add':
            if not pool:
                return False
            new = clone(rng.choice(pool))
            lst.insert(n, new)
        else:
            lst[:] = [clone(x) for x in pool[:3]]
        if key == 'tracks' and lst is nd[key] and act in ('add', 'whole', 'del'):
            # the lock numbers of a group are all there or none
            if any('lock_number' in t for t in lst):
                for t in lst:
                    t.setdefault('lock_number', 0)

        def go(obj, objs):
            cur = getattr(obj, path[0])
            owner = None
            if len(path) == 3:
                owner = cur[path[1]]
                cur = getattr(owner, path[2]) if not isinstance(owner, dict) else owner[path[2]]

            def make(it):
                if name:
                    return adapter.make_helper(self.f, nd, path[-1], it, objs)
                return {k: adapter.to_live(self.f, nd, k, v, objs, it) for k, v in it.items()}
            if act == 'field':
                for k, v in changes:
                    v = adapter.to_live(self.f, nd, k, v, objs, lst[n])
                    if isinstance(cur[n], dict):
                        cur[n][k] = v
                    else:
                        setattr(cur[n], k, v)
            elif act == 'swap':
                cur.reverse()
            elif act == 'del':
                del cur[n]
            elif act == 'add':
                h = make(lst[n])
                cur.insert(n, h)
                self.merge_nested(h, lst[n])
            else:
                hs = [make(x) for x in lst]
                if rng.random() < 0.5:
                    cur[:] = hs
                elif owner is None:
                    setattr(obj, path[0], hs)
                elif isinstance(owner, dict):
                    owner[path[2]] = hs
                else:
                    setattr(owner, path[2], hs)
                for h, it in zip(hs, lst):
                    self.merge_nested(h, it)
        return self.apply(i, nd, don, go, rng)

    def merge_nested(self, h, it):
        """defaults a helper's constructor filled in"""
        if isinstance(h, dict):
            return
        dm = adapter.Dumper(self.time_of)
        got = dm.value(h)
        if not dm.objs:
            adapter.merge_defaults(it, got)
        else:
            for k, v in got.items():
                if k not in it and k not in ref.REF_FIELDS:
                    it[k] = v

    def list_target(self, rng):
        cands = []
        for i in self.reach():
            c = self.exp.objs[i]['_c']
            if c in ('PRLS', 'TMCS'):
                cands.append((i, '_l'))
            elif c in adapter.REFLISTS and adapter.REFLISTS[c] in self.exp.objs[i]:
                cands.append((i, adapter.REFLISTS[c]))
            elif c in ('TKPS',):
                pass
        return rng.choice(cands) if cands else (None, None)

    def edit_list(self, rng):
        i, key = self.list_target(rng)
        if i is None:
            return False
        d = self.exp.objs[i]
        don = self.donor(rng, rng.choice([0, 1, 4]))
        dn = don.content(d['_c'])
        new = [x for x in dn[key] if x or key == '_l']
        nd = clone(d)
        ops, mirror = [], nd[key]
        for n in range(rng.randint(1, 4)):
            op = list_op(rng, mirror, new)
            if op:
                ops.append(op)

        def go(obj, objs):
            lst = obj if key == '_l' else getattr(obj, key)
            for op in ops:
                list_apply(lst, op, lambda t: objs[t] if t else None)
        return self.apply(i, nd, don, go, rng, set(d[key]) | set(new))

    def edit_attr(self, rng):
        i = self.pick(rng, ('ATTR',))
        if i is None:
            return False
        d = self.exp.objs[i]
        don = self.donor(rng, rng.choice([0, 0, 3]))
        dn = don.content('ATTR')
        nd = clone(d)
        ops = []
        for n in range(rng.randint(1, 4)):
            op = attr_op(rng, nd['_a'], dn['_a'])
            if op:
                ops.append(op)

        def go(obj, objs):
            for op in ops:
                attr_apply(obj, op, lambda t: objs[t] if t else None)
        return self.apply(i, nd, don, go, rng, set(a[2] for a in d['_a'] + dn['_a'] if a[1] == 3))

    def edit_ref(self, rng):
        """point a reference somewhere else"""
        i = self.pick(rng)
        d = self.exp.objs[i]
        if d['_c'] in ('ATTR', 'PRLS', 'TMCS'):
            return False
        keys = [k for k in sorted(d) if k in ref.REF_FIELDS and k != 'value' and isinstance(d[k], int)]
        if not keys:
            return False
        k = rng.choice(keys)
        don = self.donor(rng, rng.choice([0, 2, 4]))
        if rng.random() < 0.2:
            t = 0
        else:
            dn = don.content(d['_c'])
            t = dn.get(k)
            if t is None:
                return False
        if i == self.exp.root and k == 'view_setting' and not t:
            pass
        nd = clone(d)
        nd[k] = t

        def go(obj, objs):
            setattr(obj, k, objs[t] if t else None)
        return self.apply(i, nd, don, go, rng)

    def edit_mob(self, rng):
        """add, remove, move or replace bin items"""
        i = self.exp.root
        d = self.exp.objs[i]
        nd = clone(d)
        items = nd['items']
        don = self.donor(rng, rng.randint(2, 6))
        act = rng.choice(['add', 'add', 'insert', 'del', 'swap', 'replace', 'field', 'addmob'])
        if act in ('del', 'swap', 'replace', 'field') and not items:
            act = 'add'
        n = rng.randrange(len(items)) if items else 0

        def new_item():
            it = {}
            don.budget = rng.randint(1, 5)
            it['mob'] = don.new('CMPO') if rng.random() < 0.8 or not don.by_cls.get('CMPO') else rng.choice(don.by_cls['CMPO'])
            for k, kind in (('x', 's16'), ('y', 's16'), ('keyframe', 's32')):
                it[k] = ref.Gen(rng, don).rint(kind)
            it['user_placed'] = rng.random() < 0.5
            return it
        it = None
        if act in ('add', 'insert', 'addmob'):
            it = new_item()
            if act == 'addmob':
                it.update(x=-30000, y=-30000, keyframe=0, user_placed=True)
            if act == 'insert':
                items.insert(n, it)
            else:
                items.append(it)
        elif act == 'del':
            del items[n]
        elif act == 'swap':
            items.reverse()
        elif act == 'replace':
            items[n] = dict(items[n], mob=new_item()['mob'])
        else:
            items[n] = dict(items[n], x=rng.randint(-5, 5), user_placed=not items[n]['user_placed'])

        def go(obj, objs):
            cur = obj.items
            if act == 'addmob':
                obj.add_mob(objs[it['mob']])
            elif act in ('add', 'insert'):
                h = adapter.make_helper(self.f, nd, 'items', it, objs)
                if act == 'add':
                    cur.append(h)
                else:
                    cur.insert(n, h)
            elif act == 'del':
                del cur[n]
            elif act == 'swap':
                cur.reverse()
            elif act == 'replace':
                cur[n].mob = objs[items[n]['mob']]
            else:
                cur[n].x = items[n]['x']
                cur[n].user_placed = items[n]['user_placed']
        return self.apply(i, nd, don, go, rng)


class LazyLive(object):
    """model id -> live object, found when asked for"""

    def __init__(self, doc, rng, obj=None, i=None):
        self.doc = doc
        self.rng = rng
        self.made = {}
        self.found = {}
        # ids in the graph before the edit
        self.graph_ids = set(doc.reach())

    def __getitem__(self, t):
        if t in self.made:
            return self.made[t]
        if t in self.found:
            return self.found[t]
        o = self.doc.live(t, self.rng)
        self.found[t] = o
        return o


def compare_dicts(d, got, out, pair):
    if d['_c'] == 'ATTR':
        a, b = d['_a'], got['_a']
        if [[n, t] for n, t, v in a] != [[n, t] for n, t, v in b]:
            out.append('attributes %s, expected %s' % (ref.short([[n, t] for n, t, v in b]),
                                                       ref.short([[n, t] for n, t, v in a])))
            return
        for (n, t, v1), (_, _, v2) in zip(a, b):
            if t == 3:
                pair(v1, v2, repr(n))
            elif v1 != v2:
                out.append('%r: %s, expected %s' % (n, ref.short(v2), ref.short(v1)))
    elif d['_c'] in ('PRLS', 'TMCS'):
        if len(d['_l']) != len(got['_l']):
            out.append('%d entries, expected %d' % (len(got['_l']), len(d['_l'])))
            return
        for n, (x, y) in enumerate(zip(d['_l'], got['_l'])):
            pair(x, y, '[%d]' % n)
    else:
        ref.same_value(d, got, None, out, '<%s>' % d['_c'], pair, d)


# --------------------------------------------------------------------------
# list and attribute operations, on the model and on the live object

def list_op(rng, mirror, new):
    n = len(mirror)
    op = rng.choice(['append', 'append', 'insert', 'extend', 'del', 'pop', 'pop_at', 'set', 'reverse', 'clear', 'iadd',
                     'slice_del', 'slice_set', 'remove'])
    x = rng.choice(new) if new else None
    if op in ('append', 'insert', 'set') and x is None:
        return None
    if op in ('extend', 'iadd', 'slice_set') and not new:
        return None
    if op in ('del', 'pop', 'pop_at', 'set', 'remove') and not n:
        return None
    if op == 'clear' and rng.random() < 0.7:
        return None
    k = rng.randint(-n, n - 1) if n else 0
    a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
    arg = {'append': [x], 'insert': [rng.randint(-n - 1, n + 1), x], 'extend': [list(new)], 'iadd': [list(new)],
           'del': [k], 'pop': [], 'pop_at': [k], 'set': [k, x], 'reverse': [], 'clear': [], 'slice_del': [a, b],
           'slice_set': [a, b, list(new)], 'remove': [k]}[op]
    o = [op] + arg
    if op == 'remove':
        v = mirror[k]
        o = ['remove', v]
    list_apply(mirror, o, lambda t: t)
    return o


def list_apply(lst, op, res):
    name, args = op[0], op[1:]
    if name == 'append':
        return lst.append(res(args[0]))
    if name == 'insert':
        return lst.insert(args[0], res(args[1]))
    if name == 'extend':
        return lst.extend([res(x) for x in args[0]])
    if name == 'iadd':
        lst += [res(x) for x in args[0]]
        return None
    if name == 'del':
        del lst[args[0]]
        return None
    if name == 'pop':
        return lst.pop()
    if name == 'pop_at':
        return lst.pop(args[0])
    if name == 'set':
        lst[args[0]] = res(args[1])
        return None
    if name == 'reverse':
        return lst.reverse()
    if name == 'clear':
        return lst.clear() if hasattr(lst, 'clear') else lst.__delitem__(slice(None))
    if name == 'slice_del':
        del lst[args[0]:args[1]]
        return None
    if name == 'slice_set':
        lst[args[0]:args[1]] = [res(x) for x in args[2]]
        return None
    if name == 'remove':
        return lst.remove(res(args[0]))
    raise HarnessError('list op ' + name)


def attr_op(rng, items, new):
    """items: [[name, type, value]...] changed in place"""
    names = [a[0] for a in items]
    op = rng.choice(['set', 'set', 'set', 'del', 'pop', 'update', 'clear', 'replace'])
    if op == 'replace' and names:
        # another type under an existing name
        if not new:
            return None
        a = [rng.choice(names)] + rng.choice(new)[1:]
        op = 'set'
    elif op in ('set', 'replace'):
        if not new:
            return None
        a = list(rng.choice(new))
        op = 'set'
    elif op in ('del', 'pop'):
        if not names:
            return None
        k = rng.choice(names)
        items[:] = [x for x in items if x[0] != k]
        return [op, k]
    elif op == 'clear':
        if rng.random() < 0.6:
            return None
        del items[:]
        return ['clear']
    elif op == 'update':
        for a in new:
            attr_put(items, a)
        return ['update', [list(a) for a in new]]
    attr_put(items, a)
    return ['set', a]


def attr_put(items, a):
    for x in items:
        if x[0] == a[0]:
            x[1:] = a[1:]
            return
    items.append(list(a))


def attr_value(a, res):
    if a[1] == 3:
        return res(a[2])
    if a[1] == 4:
        return bytearray(a[2])
    return a[2]


def attr_apply(obj, op, res):
    name = op[0]
    if name == 'set':
        obj[op[1][0]] = attr_value(op[1], res)
    elif name == 'del':
        del obj[op[1]]
    elif name == 'pop':
        obj.pop(op[1])
    elif name == 'clear':
        obj.clear()
    elif name == 'update':
        from collections import OrderedDict
        obj.update(OrderedDict((a[0], attr_value(a, res)) for a in op[1]))
    else:
        raise HarnessError('attr op ' + name)
