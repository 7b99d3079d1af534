"""Properties of how much work a document takes: steps bounded by its size, at any nesting and sharing."""
import gc
import io
import sys

from . import simfs, ref, adapter
from .core import Violation, HarnessError, StepLimit, rng_for, avb_dir, where
from .props_doc import Prop
from .props_time import LineBuilder
from .session import Session, DIR, new_fs, gen_ops, mark_disk
from .world import Doc, file_bytes, clone


class Steps(object):
    """counts the calls the code under test makes, and ends what makes too many

    Only calls in frames of the package count: simulated disk, model and checks are free.
    """

    def __init__(self, limit):
        self.left = limit
        self.limit = limit
        self.mine = {}
        self.over = False

    def __enter__(self):
        sys.setprofile(self.tick)
        return self

    def tick(self, frame, event, arg):
        if event == 'call' or event == 'c_call':
            code = frame.f_code
            mine = self.mine.get(code)
            if mine is None:
                mine = self.mine[code] = code.co_filename.startswith(avb_dir())
            if mine:
                self.left -= 1
                if self.left < 0:
                    sys.setprofile(None)
                    self.over = True
                    raise StepLimit('steps')

    def __exit__(self, *a):
        sys.setprofile(None)

    @property
    def used(self):
        return self.limit - self.left


def listed(d):
    """how many entries the lists of an object have, nested ones included"""
    n = 0
    todo = [d]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            n += len(x)
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            n += len(x)
            todo.extend(v for v in x if isinstance(v, (dict, list)))
        if len(todo) > 10 ** 6:
            raise HarnessError('model too large')
    return n


class SizeBuilder(LineBuilder):
    """documents that are deep, wide, shared or many mobs"""

    def leaf(self):
        return self.make(self.rng.choice(['SCLP', 'FILL', 'TCCP', 'ATTR', 'MCMR']))

    def track(self, t, n):
        return {'index': n, 'component': t} if self.rng.random() < self.numbered else {'component': t}

    def wrap(self, ts, how=None):
        """an object that refers to all of ts, some of them several times"""
        rng, objs = self.rng, self.model.objs
        comps = [t for t in ts if objs[t]['_c'] != 'ATTR']
        how = how or rng.choice(['SEQU', 'SLCT', 'ATTR', 'attributes', 'TKFX', 'CMPO'])
        if how == 'SEQU' and comps:
            return self.make('SEQU', components=comps)
        if how in ('SLCT', 'TKFX', 'CMPO') and comps:
            i = self.make(how, tracks=[self.track(t, k + 1) for k, t in enumerate(comps)])
            if how == 'SLCT':
                objs[i]['selected'] = 0
            return i
        a = self.make('ATTR', _a=[[u'a%d' % k, 3, t] for k, t in enumerate(ts)])
        if how == 'ATTR':
            return a
        i = self.make(rng.choice(['FILL', 'SEQU', 'SCLP', 'TCCP']))
        if objs[i]['_c'] == 'SEQU':
            objs[i]['components'] = []
        objs[i]['attributes' if rng.random() < 0.7 else 'session_attrs'] = a
        return i

    def deep(self, n):
        one = self.rng.choice(['SEQU', 'SLCT', 'TKFX', 'ATTR', 'attributes', 'CMPO', 'SLCT', None, None])
        t = self.leaf()
        for k in range(n):
            t = self.wrap([t], one)
        return t

    def shared(self, n):
        """n levels, each referring to the one below several times"""
        rng = self.rng
        one = rng.choice(['SEQU', 'SLCT', 'ATTR', 'attributes', 'CMPO', None, None, None])
        width = rng.choice([1, 1, 2, 3])
        below = [self.leaf() for k in range(width)]
        for k in range(n):
            below = [self.wrap([rng.choice(below) for j in range(rng.choice([2, 2, 3, 5]))], one) for j in range(width)]
        return self.wrap(below)

    def wide(self, n):
        leaves = [self.leaf() for k in range(self.rng.choice([1, 5, 40]))]
        return self.wrap([self.rng.choice(leaves) for k in range(n)], self.rng.choice(['SEQU', 'SLCT', 'ATTR', 'CMPO']))

    def document(self, case):
        rng, objs = self.rng, self.model.objs
        self.nmobs = 0
        self.numbered = rng.choice([1, 1, 0.8, 0])
        root = self.model.root = self.new('ABIN')
        mobs = []
        shape, n = case['shape'], case['n']
        if shape == 'mobs':
            for k in range(n):
                mobs.append(self.make('CMPO', tracks=[]))
                self.new_mobid(objs[mobs[-1]])
            form = rng.choice(['chain', 'ring', 'any', 'all'])
            for k, m in enumerate(mobs):
                to = {'chain': [k + 1], 'ring': [(k + 1) % n], 'any': [rng.randrange(n + 1) for j in range(rng.randint(0, 4))],
                      'all': range(n + 1) if n <= 40 else [rng.randrange(n + 1) for j in range(8)]}[form]
                for t in to:
                    c = self.make('SCLP', mob_id=objs[mobs[t]]['mob_id'] if t < n else self.rmobid())
                    objs[m]['tracks'].append(self.track(c, len(objs[m]['tracks']) + 1))
        else:
            t = getattr(self, shape)(n)
            if objs[t]['_c'] == 'ATTR' or rng.random() < 0.3:
                m = self.make('CMPO', tracks=[])
                objs[m]['attributes'] = self.make('ATTR', _a=[[u'top', 3, t]])
            else:
                m = self.make('CMPO', tracks=[self.track(t, 1)])
            mobs = [m]
            if shape == 'wide' and rng.random() < 0.5:
                mobs = mobs + [self.make('CMPO', tracks=[]) for k in range(rng.choice([0, 20]))]
                mobs = [rng.choice(mobs) for k in range(rng.choice([10, n]))]
        for k, m in enumerate(mobs):
            objs[root]['items'].append({'mob': m, 'x': k % 1000, 'y': 0, 'keyframe': 0, 'user_placed': True})
        return ref.prune(self.model)


class StepSession(Session):
    """every operation has as many steps as the size of the document gives it"""

    def __init__(self, env, case, doc):
        Session.__init__(self, env, case, doc)
        self.asked = 0
        self.most = {}
        self.image = None           # what the document was opened from: bytes, {number: (class, bytes)}, entries of the root
        if doc.index is not None:
            self.opened(doc.data)

    def opened(self, data):
        m = ref.decode_file(data)
        first = ref.decode_header(data)[2]
        recs = ref.walk_records(data, first, m.order, len(m.objs))
        self.image = data, {n: (m.objs[n]['_c'], len(recs[n - 1][1])) for n in m.objs}, listed(m.objs[m.root])

    # ---- the size of the document
    def size(self):
        """(objects and references and list entries reachable, bytes of the records if it was opened)"""
        objs = self.doc.exp.objs
        return sum(listed(objs[i]) + 10 for i in self.doc.reach())

    def stored(self):
        return len(self.image[0]) if self.image else 0

    def within(self, what, budget, fn, faults=None):
        """fn() within a number of steps -> its outcome"""
        self.asked += 1
        self.env.count(what)
        if faults:
            self.fs.set_faults(faults)
        n = len(self.fs.fired)
        s = Steps(budget)
        try:
            try:
                with s:
                    r = ('returns', fn())
            except StepLimit:
                if not s.over:
                    raise
                raise Violation('takes too many steps', '%s: more than %d steps for a size of %d' % (what, budget, self.size()))
            except MemoryError:
                raise
            except (RecursionError, Exception) as e:
                r = ('raises', e)
        finally:
            self.fs.clear_faults()
        if s.used * 1000 // budget > self.most.get(what, 0):
            self.most[what] = s.used * 1000 // budget
        fired = len(self.fs.fired) > n
        if r[0] == 'raises' and (not fired or isinstance(r[1], RecursionError)):
            raise Violation('%s fails on a document that opens' % what, '%s %s at %s' % (
                type(r[1]).__name__, str(r[1])[:150], where(r[1].__traceback__)))
        self.env.log(what, r[0], fired)
        return r

    def read_faults(self, rng, share=0.25):
        if self.image is None or rng.random() > share:
            return None
        return [[rng.choice(['read', 'read', 'seek']), rng.choice([1, 2, 5, 20, 100]), rng.choice(['EIO', 'eof', 'EIO']),
                 rng.random() < 0.3]]

    def forget(self):
        self.doc.hold.clear()
        gc.collect()

    def again(self, what, budget, fn, faults):
        """with faults first, then without"""
        if faults:
            r = self.within(what, budget, fn, faults)
            if r[0] == 'returns':
                return r[1]
            r = None
        return self.within(what, budget, fn)[1]

    # ---- operations
    def do_open(self, rng):
        """the stored file is opened once more"""
        if self.image is None:
            return
        data, n, root = self.image[0], len(self.image[1]), self.image[2]
        ext = self.doc.use_ext
        path = DIR + '/again.avb'
        self.fs.put(path, data)
        stream = rng.random() < 0.3
        buffering = rng.choice([8192, 1, 64])

        def go():
            src = io.BytesIO(data) if stream else path
            return adapter.avb.open(src, use_ext=ext) if stream or rng.random() < 0.5 else \
                adapter.avb.file.AVBFile(src, buffering=buffering, use_ext=ext)
        f = self.again('open', 2000 + 120 * n + 300 * root, go, self.read_faults(rng))
        f.close()

    def do_load(self, rng):
        """objects by their number, in any order"""
        if self.image is None:
            return
        f, recs = self.doc.f, self.image[1]
        for n in rng.sample(sorted(recs), min(len(recs), rng.choice([1, 5, 20]))):
            cid, size = recs[n]
            if rng.random() < 0.3:
                self.forget()
            o = self.again('load', 1000 + 60 * size, lambda: f.read_object(n), self.read_faults(rng, 0.1))
            if adapter.class_id(o) != cid:
                raise Violation('wrong object', '%d: %s' % (n, adapter.class_id(o)))
            o = None

    def do_chunks(self, rng):
        if self.image is None:
            return
        f, recs = self.doc.f, self.image[1]
        got = self.again('chunks', 1000 + 100 * len(recs), lambda: [c.class_id for c in f.chunks()], self.read_faults(rng))
        if got[1:] != [recs[n][0].encode('ascii') for n in sorted(recs)]:
            raise Violation('chunks differ', '%d' % len(got))

    def do_classes(self, rng):
        if self.image is None:
            return
        f, recs = self.doc.f, self.image[1]
        classes = [c for c, size in recs.values()]
        cid = rng.choice(sorted(set(classes)))
        self.forget()
        got = self.again('iter_class_ids', 2000 + 100 * len(recs) + 60 * self.stored(),
                         lambda: sum(1 for o in f.iter_class_ids([cid.encode('ascii')])), self.read_faults(rng))
        if got != classes.count(cid):
            raise Violation('class iteration differs', '%s: %d' % (cid, got))

    def do_mobs(self, rng):
        doc = self.doc
        items = doc.exp.objs[doc.exp.root]['items']
        budget = 3000 + 300 * len(items) + 60 * self.stored() + 200 * self.size()
        want = [it['mob'] for it in items if it['mob']]
        if rng.random() < 0.4:
            self.forget()
        got = self.again('mobs', budget, lambda: sum(1 for m in doc.f.content.mobs), self.read_faults(rng))
        if got != len(want):
            raise Violation('mobs differ', '%d, expected %d' % (got, len(want)))
        self.again('toplevel', budget, lambda: sum(1 for m in doc.f.content.toplevel()), self.read_faults(rng))

    def do_find(self, rng):
        doc = self.doc
        items = doc.exp.objs[doc.exp.root]['items']
        budget = 3000 + 300 * len(items) + 60 * self.stored() + 200 * self.size()
        have = [doc.exp.objs[it['mob']]['mob_id'] for it in items if it['mob']]
        for k in range(rng.choice([1, 3])):
            b = rng.choice(have) if have and rng.random() < 0.6 else bytes(rng.getrandbits(8) for j in range(32))
            if rng.random() < 0.3:
                self.forget()
            m = self.again('find_by_mob_id', budget, lambda: doc.f.content.find_by_mob_id(adapter.to_mobid(b)), self.read_faults(rng))
            if (m is None) != (b not in have):
                raise Violation('wrong mob found', '%s' % (m is None))
            m = None

    def do_depends(self, rng):
        """mobs that use each other, listed once each"""
        doc = self.doc
        objs = doc.exp.objs
        items = objs[doc.exp.root]['items']
        ids = [it['mob'] for it in items if it['mob']]
        if not ids:
            return
        by_id = {}
        for i in ids:
            by_id[objs[i]['mob_id']] = i
        if len(by_id) != len(set(ids)):
            return
        i = rng.choice(ids)

        def uses(i):
            seen, todo, out = {i}, [i], []
            while todo:
                d = objs[todo.pop()]
                if d['_c'] == 'SCLP' and d['mob_id'] in by_id:
                    out.append(d['mob_id'])
                for t in ref.ref_targets(d):
                    if t and t not in seen:
                        seen.add(t)
                        todo.append(t)
            return out, len(seen)
        want, todo, walked, clips = {objs[i]['mob_id']}, [i], 0, 0
        while todo:
            out, n = uses(todo.pop())
            walked += n
            clips += n
            for b in out:
                if b not in want:
                    want.add(b)
                    todo.append(by_id[b])
        want.discard(objs[i]['mob_id'])
        # each mob is searched once, every clip looks a mob up
        budget = 5000 + 60 * self.stored() + 200 * self.size() + 300 * walked + 30 * len(want) * self.size() + 30 * clips * (len(items) + 5)
        mob = doc.live(i, rng)
        got = self.again('dependant_mobs', budget, lambda: [bytes(m.mob_id.bytes_le) for m in mob.dependant_mobs()],
                         self.read_faults(rng))
        if sorted(got) != sorted(want):
            raise Violation('dependencies differ', '%d, expected %d' % (len(got), len(want)))

    def do_save(self, rng):
        doc = self.doc
        order = rng.choice(['little', 'big'])
        path = DIR + '/' + rng.choice(['out.avb', 'new.avb'])
        budget = 10000 + 60 * self.stored() + 1000 * self.size()
        faults = None
        r = rng.random()
        if r < 0.2:
            faults = [['write', rng.choice([1, 3, 10, 50]), rng.choice(['ENOSPC', 'EIO']), True]]
        elif r < 0.35:
            self.forget()
            faults = self.read_faults(rng, 1)
        self.again('save', budget, lambda: doc.f.write(path, order), faults)
        data = self.fs.get(path)
        m = doc.read_back(data, order)
        self.env.state(data)
        self.env.count('objects saved', len(m.objs))
        self.last = path
        self.last_model = self.snapshot(doc.exp)

    def snapshot(self, m):
        out = ref.Model()
        out.__dict__.update(m.__dict__)
        out.objs = dict((i, clone(d)) for i, d in m.objs.items())
        return out

    def do_edit(self, rng):
        """an attribute somewhere, or one more level of nesting and sharing on top"""
        doc = self.doc
        root = doc.exp.objs[doc.exp.root]
        if rng.random() < 0.4 or not root['items']:
            doc.edit(rng, rng.choice(['set', 'nested', 'all']))
            return
        i = rng.choice([it['mob'] for it in root['items'] if it['mob']])
        d = doc.exp.objs[i]
        with_c = [t for t in d['tracks'] if t.get('component')]
        if not with_c:
            return
        k = rng.choice([k for k, t in enumerate(d['tracks']) if t.get('component')])
        inner = d['tracks'][k]['component']
        times = rng.choice([1, 2, 2, 3])
        don = doc.donor(rng, 0)
        new = don.new('SEQU')
        don.fresh[new]['components'] = [inner] * times
        nd = clone(d)
        nd['tracks'][k]['component'] = new

        def live_edit(o, objs):
            o.tracks[k].component = objs[new]
        if doc.apply(i, nd, don, live_edit, rng):
            self.env.count('levels added')

    def do_reopen(self, rng):
        if self.last is None:
            return
        doc = self.doc
        doc.exp = self.snapshot(self.last_model)
        doc.reopen(self.last)
        self.opened(self.fs.get(self.last))
        self.env.count('reopens')

    def do_gc(self, rng):
        gc.collect()

    def do_drop(self, rng):
        self.doc.hold.clear()


class C05(Prop):
    ID = 'C05'
    technique = ('deterministic simulation: seeded deep, wide and shared documents under step budgets, with failing storage, '
                 'saves compared with a reference model')
    quick = {'pure': 320, 'ext': 110}
    fragile = True
    wall_limit = 240
    rule = ('a run opens or makes a document of one shape (nested up to thousands of objects deep, objects shared over up to '
            '60 levels, lists of thousands of entries, many mobs that use each other) and opens, loads, traverses, searches, '
            'edits, saves and reopens it, some of it first while storage fails; every operation has a budget of calls linear in the '
            'bytes, records, references and entries it concerns (mobs x clips for dependency listings); non-trivial when five '
            'operations were measured')
    note = ('Seeded search, not proof. Steps are calls made in frames of the package; what one call does inside the interpreter '
            'counts as one. Budgets are several times what the code takes. Trusts the reference codec in sim/ref.py.')

    def generate(self, rng, index, tier):
        shape = ['deep', 'shared', 'wide', 'mobs'][index % 4]
        n = {'deep': [3, 30, 200, 400, 400, 1200, 1200, 2500 if tier != 'quick' else 900], 'shared': [3, 8, 20, 40, 60], 'wide': [10, 300, 300, 1000, 2000 if tier == 'quick' else 5000],
             'mobs': [2, 5, 12, 30, 60]}[shape]
        c = {'seed': rng.getrandbits(40), 'shape': shape, 'n': rng.choice(n), 'size': 0, 'order': rng.choice(['little', 'big']),
             'src': rng.choice(['bytes', 'bytes', 'api']), 'perm': rng.random() < 0.6, 'spell': rng.random() < 0.3,
             'buffering': rng.choice([8192, 1, 64, 513]), 'short': rng.random() < 0.3}
        c['ops'] = gen_ops(rng, [('open', 1), ('load', 2), ('chunks', 0.7), ('classes', 1), ('mobs', 1), ('find', 1),
                                 ('depends', 1.5), ('save', 2.5), ('reopen', 1), ('edit', 2), ('drop', 1), ('gc', 0.5)],
                           rng.choice([4, 8, 14] if tier == 'quick' else [8, 14, 25]))
        return c

    def model(self, case):
        b = SizeBuilder(rng_for('steps', case['seed']), size=0, order=case['order'], misc=[], dag=0.02)
        m = b.document(case)
        m.last_save = 1500000000
        m.creator = u'pyavb sim'
        return m

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            model = self.model(case)
            doc = Doc(env, case, fs, DIR + '/src.avb')
            doc.route = False
            if case['src'] == 'api':
                doc.create(model)
                doc.path = None
            else:
                data, spans, refmap = file_bytes(case, model)
                doc.open_bytes(model, data, refmap)
                doc.data, doc.spans, doc.refmap = data, spans, refmap
            mark_disk(doc)
            s = StepSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            s.do_save(rng_for('last', case['seed']))
            doc.f.close()
            env.nontrivial = s.asked >= 5
            env.most = s.most
