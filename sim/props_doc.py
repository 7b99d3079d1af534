"""Properties of whole documents: saving, reading, editing."""
import gc
import io

from . import simfs, ref, adapter, seams
from .core import Violation, HarnessError, derive, rng_for, unexpected, where
from .world import Doc, build_model, enlarge, file_bytes, gen_source, clone_model
from .session import (Session, DIR, new_fs, open_doc, other, gen_ops, mark_disk, check_structure)


class Prop(object):
    ID = None
    modes = {'pure': 1.0}
    quick = {'pure': 1000}
    thorough_factor = 12
    level = 'exploration'
    technique = 'deterministic simulation: seeded histories on a simulated disk, compared with a reference model'
    note = ('Seeded search, not proof: it shows the absence of violations on the runs counted in the evidence. Trusts the '
            'independent reference codec and model in sim/ref.py, the simulated file system and the interpreter.')
    rule = ''
    assumptions = []
    wall_limit = 60
    common = {}                 # runs repeated in processes that differ in their hash seed, by mode
    workers = {'pure': 4, 'ext': 4}
    states_rule = 'hashes of the files written (and, where the rule names them, of the files read or disk states reached)'
    simulated_time = 'the simulated clock stands still unless the property says so; no run waits in real time'
    real = ['all of /repo/src/avb']
    stub = ['file system (open, os.*, io, tempfile, shutil) replaced by sim/simfs.py', 'clock, entropy and process-wide '
            'random state replaced by sim/seams.py']

    def __init__(self):
        self.known = set()
        self.extra = {}

    def generate(self, rng, index, tier):
        raise NotImplementedError

    def run(self, case, env):
        raise NotImplementedError


EDIT_OPS = [('edit', 6), ('edit_nested', 2), ('edit_list', 2), ('edit_attr', 2), ('edit_mob', 1), ('edit_ref', 1)]


class A01(Prop):
    ID = 'A01'
    quick = {'pure': 2600, 'ext': 900}
    rule = ('a run is one random document (made through the API or opened from generated bytes; object classes cycle '
            'through all %d), a random history of edits, reads, drops, garbage collections, saves in either byte order '
            'and reopens on the simulated disk; non-trivial when at least one edit and one save happened'
            % len(ref.CLASSES))

    def generate(self, rng, index, tier):
        c = gen_source(rng, index)
        c['src'] = rng.choice(['api', 'bytes', 'bytes'])
        n = rng.choice([0, 2, 5, 10, 20] if tier == 'quick' else [0, 5, 10, 20, 40])
        c['ops'] = gen_ops(rng, EDIT_OPS + [('read', 2), ('drop', 1), ('hold', 2), ('gc', 1), ('save', 1.5),
                                            ('saveover', 0.5), ('reopen', 1)], n)
        if index % 120 == 31:
            enlarge(c, rng, gen_ops(rng, EDIT_OPS + [('edit_many', 5), ('gc', 3), ('save', 2), ('reopen', 2)], rng.choice([2, 5])))
        c['final'] = rng.choice(['little', 'big'])
        if index % 300 == 77:
            c.update(ops=[], crowd=rng.choice([65534, 65535, 65535, 65536, 65537, 40000]), src=rng.choice(['api', 'bytes']),
                     size=5, buffering=8192, short=False)
        return c

    def crowd(self, case, env, fs):
        """a bin with about as many items as the short form of its record can count"""
        rng = rng_for('crowd', case['seed'])
        n = case['crowd']
        model = build_model(case)
        root = model.objs[model.root]
        root['large_bin'] = False

        def items(k):
            return [{'mob': 0, 'x': i & 0x7fff, 'y': -(i & 0x7f), 'keyframe': i, 'user_placed': bool(i & 1)} for i in range(k)]
        doc = Doc(env, case, fs, DIR + '/crowd.avb')
        if case['src'] == 'bytes':
            root['items'] += items(n - len(root['items']))
            root['large_bin'] = n > 0xffff or rng.random() < 0.3
            data, spans, refmap = file_bytes(case, model)
            doc.open_bytes(model, data, refmap)
        else:
            doc.create(model)
            root = doc.exp.objs[doc.exp.root]
            more = items(n - len(root['items']))
            for it in more:
                b = doc.f.create.BinItem()
                b.mob, b.x, b.y, b.keyframe, b.user_placed = None, it['x'], it['y'], it['keyframe'], it['user_placed']
                doc.f.content.items.append(b)
            root['items'] += more
        root = doc.exp.objs[doc.exp.root]
        doc.check_object(doc.exp.root, rng)
        for k, order in enumerate([case['final'], other(case['final'])]):
            out = DIR + '/c%d.avb' % k
            doc.f.write(out, order)
            # how the count is stored follows from the count
            root['large_bin'] = root['large_bin'] or len(root['items']) > 0xffff
            doc.read_back(fs.get(out), order)
            doc.reopen(out)
            root = doc.exp.objs[doc.exp.root]
            doc.check_object(doc.exp.root, rng)
            if k == 0:
                cut = rng.randint(1, 5)
                del doc.f.content.items[-cut:]
                del root['items'][-cut:]
        doc.f.close()
        env.count('bins of %d items' % n)
        env.nontrivial = True

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            if case.get('crowd'):
                return self.crowd(case, env, fs)
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = Session(env, case, doc)
            for op in case['ops']:
                s.step(op)
            out = DIR + '/final.avb'
            s.save_to(out, case['final'])
            g = Doc(env, case, fs, out)
            g.exp = doc.exp
            g.f = g.open(out)
            g.check_dump(rng_for('final', case['seed']), 'reopened file differs')
            doc.check_dump(rng_for('final2', case['seed']))
            g.f.close()
            doc.f.close()
            env.nontrivial = doc.edits > 0


class A02(Prop):
    ID = 'A02'
    quick = {'pure': 6000, 'ext': 2000}
    rule = ('a run is one generated well-formed file (both byte orders, shuffled object order, all classes, random '
            'optional fields) opened from the simulated disk with a random buffer size and random short reads, read '
            'by interleaved traversals, random-order visits, drops and collections; non-trivial when the file holds '
            'at least five objects')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, 40))
        c['src'] = 'bytes'
        c['stream'] = rng.random() < 0.15
        c['bare'] = rng.random() < 0.15
        c['ops'] = gen_ops(rng, [('read', 6), ('hold', 2), ('drop', 1), ('gc', 1), ('iter', 1.5), ('next', 4),
                                 ('dump', 0.5), ('index', 3)], rng.choice([0, 4, 10, 25]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            if doc.f.creator_version.rstrip() != doc.exp.creator:
                raise Violation('header differs', 'creator %r' % doc.f.creator_version)
            if adapter.stamp(doc.f.last_save) != doc.exp.last_save:
                raise Violation('header differs', 'last save %r' % doc.f.last_save)
            s = ReadSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            doc.check_dump(rng_for('dump', case['seed']), 'read differs from the bytes')
            # every record of the file, reachable or not
            for n in sorted(doc.index):
                o = doc.f.read_object(n)
                doc.note(doc.index[n], o)
            env.nontrivial = len(doc.index) >= 5
            env.state(doc.data)
            doc.f.close()


class ReadSession(Session):
    def do_index(self, rng):
        doc = self.doc
        n = rng.choice(sorted(doc.index))
        i = doc.index[n]
        o = doc.f.read_object(n)
        if doc.f.read_object(0) is not None:
            raise Violation('there is an object where there is none', 'record 0')
        if adapter.class_id(o) != doc.disk[n]:
            raise Violation('wrong class', 'record %d reads as %s' % (n, adapter.class_id(o)))
        doc.note(i, o)
        if rng.random() < 0.3:
            doc.keep(i, o)


class A03(Prop):
    ID = 'A03'
    quick = {'pure': 2700, 'ext': 1050}
    rule = ('a run opens a generated file and saves it unedited through a random chain of load/save generations with '
            'random byte orders, partial loads and collections in between; non-trivial when the chain has at least '
            'three generations')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, 40))
        c['src'] = 'bytes'
        c['ops'] = [[rng.choice(['little', 'big']), rng.getrandbits(30)] for i in range(rng.choice([1, 3, 4, 6]))]
        c['nomobid'] = index % 40 == 7
        return c

    def old_ids(self, case, env, fs):
        """a file whose source clips have only the old 64 bit mob id, which readers of the format accept"""
        model = build_model(dict(case, misc=['SCLP', 'SCLP']))
        n = 0
        for i, d in model.objs.items():
            if d['_c'] == 'SCLP':
                del d['mob_id']
                d['_legacy'] = (7, 1, 2)
                n += 1
        data, spans, refmap = file_bytes(case, model)
        doc = Doc(env, case, fs, DIR + '/old.avb')
        doc.open_bytes(model, data, refmap)
        doc.check_dump()
        try:
            doc.f.write(DIR + '/oldout.avb', 'little')
        except AttributeError as e:
            if n and 'mob_id' in str(e):
                self.known.add('A03-old-mob-id')
                env.count('known finding met')
                doc.f.close()
                return
            raise
        doc.read_back(fs.get(DIR + '/oldout.avb'), 'little')
        doc.f.close()

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            if case.get('nomobid'):
                self.old_ids(case, env, fs)
            doc = open_doc(env, case, fs)
            first = {}
            f = doc.f
            last_save = adapter.stamp(f.last_save)
            for n, (order, seed) in enumerate(case['ops']):
                rng = rng_for('gen', seed)
                for k in range(rng.choice([0, 0, 1, 5])):
                    doc.check_object(doc.pick(rng), rng)
                if rng.random() < 0.3:
                    gc.collect()
                path = DIR + '/g%d.avb' % n
                f.write(path, order)
                data = fs.get(path)
                m = doc.read_back(data, order)
                if m.last_save != last_save:
                    raise Violation('last save time changed', '%d, was %d' % (m.last_save, last_save))
                if m.creator.rstrip() != doc.exp.creator.rstrip():
                    raise Violation('creator changed', repr(m.creator))
                env.state(data)
                env.count('generations')
                # drift: from the first rewrite in an order on, rewrites are identical
                if order in first and first[order] != data:
                    k = next((j for j, (a, b) in enumerate(zip(first[order], data)) if a != b), -1)
                    raise Violation('rewrites drift', 'generation %d differs from an earlier %s rewrite at byte %d of %d' % (
                        n, order, k, len(data)))
                first[order] = data
                f.close()
                f = doc.f = doc.open(path)
                doc.path = path
                doc.index = None
                doc.touch()
            f.close()
            env.nontrivial = len(case['ops']) >= 3


class A05(Prop):
    ID = 'A05'
    common = {'pure': 150, 'ext': 40}
    quick = {'pure': 2000, 'ext': 700}
    rule = ('a run edits a document, saves it several times to different paths in different byte orders with reads, '
            'collections, failed saves and reloads in between, and compares bytes and the live document before and '
            'after; some runs are repeated in processes with other hash seeds and must write the same bytes; non-trivial when '
            'one state was saved at least three times')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index)
        c['src'] = rng.choice(['api', 'bytes', 'bytes'])
        c['ops'] = gen_ops(rng, EDIT_OPS, rng.choice([0, 1, 3, 8]))
        c['ops2'] = gen_ops(rng, [('save', 4), ('read', 2), ('hold', 1), ('drop', 1), ('gc', 1), ('failsave', 1.5),
                                  ('saveover', 0.5), ('tick', 1), ('next', 1)], rng.randint(3, 10))
        c['light'] = rng.choice([0, 0, 1, 2])
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = RepeatSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            if case.get('light'):
                # nothing is held while the first saves walk the document, what they load comes and goes
                s.let_go()
                s.save_to(DIR + '/light.avb', 'little')
                if case['light'] > 1:
                    s.save_to(DIR + '/light.avb', 'big')
            else:
                s.finer(rng_for('finer', case['seed']))
            s.snapshot()
            s.save_to(DIR + '/first.avb', 'little')
            s.check_snapshot()
            s.save_to(DIR + '/first.avb', 'big')
            for op in case['ops2']:
                s.step(op)
            s.save_to(DIR + '/last.avb', 'little')
            s.save_to(DIR + '/last.avb', 'big')
            s.check_snapshot()
            # the same content opened twice writes the same bytes as well
            env.nontrivial = True
            doc.f.close()


class RepeatSession(Session):
    """one state of the document; every save of it must write the same bytes"""

    def __init__(self, *a):
        Session.__init__(self, *a)
        self.bytes = {}
        self.snap = None

    def let_go(self):
        self.doc.hold.clear()
        gc.collect()

    def snapshot(self):
        g = self.doc.check_dump()
        self.snap = g.live          # every object, kept alive
        self.exact = adapter.exact(self.doc.f, self.snap.values())

    def finer(self, rng):
        """give some values a part that is not stored"""
        if rng.random() < 0.4:
            return
        f = self.doc.f
        if rng.random() < 0.5:
            f.creator_version = rng.choice([u'c' * 31, u'Media Composer ' * 4, u' x ', u'\xe9' * 100])
        if rng.random() < 0.7:
            f.last_save = f.last_save.replace(microsecond=rng.choice([1, 500000, 999999]))
        for o in adapter.dump(f).live.values():
            for k in ('last_modified', 'creation_time'):
                t = getattr(o, k, None)
                if t is not None and rng.random() < 0.4:
                    setattr(o, k, t.replace(microsecond=rng.choice([1, 500000, 999999])))
            self.finer_values(o, rng)

    def finer_values(self, o, rng):
        """what is equal when read back, but not the same"""
        for pdef in getattr(o, 'propertydefs', ()):
            k = pdef.name
            if rng.random() < 0.8 or not hasattr(o, k):
                continue
            v = getattr(o, k)
            if isinstance(v, bool):
                setattr(o, k, int(v))
            elif v == u'' and getattr(pdef, 'type', None) == 'string':
                setattr(o, k, None)
            elif isinstance(v, float) and k in ('edit_rate', 'sample_rate') and v == int(v):
                setattr(o, k, int(v))
            elif isinstance(v, list) and v and getattr(pdef, 'type', None) in ('rect', 'color'):
                setattr(o, k, tuple(v))

    def check_snapshot(self):
        g = self.doc.check_dump(None, 'a save changed the document')
        a = {id(o) for o in self.snap.values()}
        b = {id(o) for o in g.live.values()}
        if a != b:
            raise Violation('a save changed object identities', '%d objects, %d the same' % (len(b), len(a & b)))
        x = adapter.exact(self.doc.f, self.snap.values())
        if x != self.exact:
            k = [k for k in self.exact if x.get(k) != self.exact[k]] or [k for k in x if k not in self.exact]
            raise Violation('a save changed the document', '%s: %r, was %r' % (
                k[0][1], x.get(k[0]), self.exact.get(k[0])))

    def save_to(self, path, order):
        data = Session.save_to(self, path, order)
        old = self.bytes.setdefault(order, data)
        if old != data:
            k = next((j for j, (x, y) in enumerate(zip(old, data)) if x != y), min(len(old), len(data)))
            raise Violation('saves of one state differ', '%s order, byte %d, lengths %d and %d' % (order, k, len(old), len(data)))
        self.env.count('repeated saves')
        return data

    def do_saveover(self, rng):
        Session.do_saveover(self, rng)

    def do_tick(self, rng):
        seams.CLOCK.now += rng.choice([1, 60, 86400, -3600])

    def do_failsave(self, rng):
        kind = rng.choice(['write', 'open', 'fsync', 'close', 'rename', 'full', 'badvalue', 'nodir'])
        fs = self.fs
        order = rng.choice(['little', 'big'])
        path = DIR + '/fail.avb'
        restore = None
        if kind == 'full':
            fs.capacity = fs.used() + rng.randint(0, 300)
        elif kind == 'nodir':
            path = '/simfs/none/fail.avb'
        elif kind == 'badvalue':
            doc = self.doc
            ids = [i for i in doc.reach() if 'edit_rate' in doc.exp.objs[i] and 'media_kind_id' in doc.exp.objs[i]]
            if not ids:
                return
            i = rng.choice(ids)
            o = doc.live(i, rng)
            o.media_kind_id = 1 << 40
            restore = (o, doc.exp.objs[i]['media_kind_id'])
        else:
            n = rng.randint(1, 3) if kind == 'write' else 1
            fs.set_faults([[kind, n, rng.choice(['EIO', 'ENOSPC']), False]])
        try:
            self.doc.f.write(path, order)
            ok = True
        except Exception:
            ok = False
            self.env.count('failed saves')
        fs.clear_faults()
        if restore:
            o, v = restore
            o.media_kind_id = v
            if ok:
                raise Violation('a value that does not fit was saved', '')
        self.env.log('failsave', kind, ok)


class A06(Prop):
    ID = 'A06'
    quick = {'pure': 3000, 'ext': 500}
    rule = ('a run applies a random edit history (including unreferenced objects, shared subtrees and removed ones) and '
            'parses every file saved along the way with the strict reference codec; cycles are put in, must be refused, and taken '
            'out again; non-trivial when a save held at '
            'least three objects')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, 40))
        c['src'] = rng.choice(['api', 'bytes', 'bytes'])
        c['ops'] = gen_ops(rng, EDIT_OPS + [('save', 3), ('orphan', 1), ('gc', 0.5), ('drop', 0.5), ('reopen', 0.7),
                                            ('hold', 1), ('cycle', 0.7)], rng.choice([1, 4, 8, 16]))
        if index % 120 == 71:
            enlarge(c, rng, gen_ops(rng, EDIT_OPS + [('save', 2), ('edit_many', 3), ('orphan', 1), ('gc', 0.5)], rng.choice([1, 3])))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = StructSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            s.save_to(DIR + '/final.avb', rng_for('o', case['seed']).choice(['little', 'big']))
            doc.f.close()


class StructSession(Session):
    def do_orphan(self, rng):
        """an object nothing refers to"""
        name = ref.CLASSES[rng.choice(ref.MISC)][1]
        o = adapter.new_live(self.doc.f, name)
        if rng.random() < 0.5:
            self.doc.hold[-rng.randint(1, 100)] = o

    def do_hold(self, rng):
        Session.do_hold(self, rng)

    def do_drop(self, rng):
        self.doc.hold.clear()

    def do_cycle(self, rng):
        """an object that reaches itself cannot be stored, children first: refused until the cycle is gone"""
        doc = self.doc
        i = doc.pick(rng)
        d = doc.exp.objs[i]
        above = [i]
        while rng.random() < 0.6:
            ps = doc.graph()[0].get(above[-1])
            if not ps:
                break
            above.append(rng.choice(ps)[0])
        o, up = doc.live(i, rng), doc.live(above[-1], rng)
        steps = [st for st, t in adapter.edges(d) if t]
        if d['_c'] == 'ATTR' and rng.random() < 0.7:
            o[u'cycle'] = up

            def undo():
                del o[u'cycle']
        elif steps:
            step = rng.choice(steps)
            inner = adapter.follow(o, [step[:-1]])
            kind, k = step[-1]
            old = adapter.follow(inner, [step[-1:]])

            def put(v):
                if kind == 'attr':
                    setattr(inner, k, v)
                else:
                    inner[k] = v
            put(up)

            def undo():
                put(old)
        else:
            return
        path = DIR + '/cycle.avb'
        before = self.fs.get(path)
        raised = False
        try:
            doc.f.write(path, rng.choice(['little', 'big']))
        except Exception:
            raised = True
        undo()
        if not raised:
            raise Violation('a cycle is stored', '%s object %d reaches itself over %d objects' % (d['_c'], i, len(above)))
        if self.fs.get(path) != before:
            raise Violation('a refused save changes the destination', '')
        self.env.log('cycle', len(above))
        self.env.count('cycles refused')

    def save_to(self, path, order):
        data = self.doc.save(path, order)
        m = check_structure(data, order, self.doc.exp, self.doc.reach())
        self.env.log('saved', len(m.objs))
        self.env.count('saves')
        self.env.state(data)
        self.last = path
        self.last_model = clone_model(self.doc.exp)
        if len(m.objs) >= 3:
            self.env.nontrivial = True
        diffs = ref.same_models(self.doc.exp, m)
        if diffs:
            raise Violation('saved file differs', '; '.join(diffs[:3]))
        return data


class D01(Prop):
    ID = 'D01'
    quick = {'pure': 2600, 'ext': 900}
    rule = ('a run opens a file and makes a random history of edits of every kind at objects reached by navigation, '
            'dropping every reference at random moments with collections in between; later reads and saves must show '
            'all of them; non-trivial when at least two edits were made')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index)
        c['src'] = 'bytes' if rng.random() < 0.85 else 'api'
        c['ops'] = gen_ops(rng, [('edit', 5), ('edit_nested', 4), ('edit_list', 3), ('edit_attr', 3), ('edit_mob', 2),
                                 ('edit_set', 3), ('read', 4), ('gc', 3), ('hold', 1), ('drop', 2), ('save', 1),
                                 ('saveover', 0.7), ('reopen', 0.5), ('blob', 1.5)], rng.choice([3, 6, 12, 25]))
        if index % 120 == 43:
            enlarge(c, rng, gen_ops(rng, [('edit_many', 6), ('gc', 2), ('edit', 2), ('drop', 1), ('save', 1), ('hold_all', 1)], rng.choice([2, 4])))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = EditSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
                if env.mode == 'ext' and op[1] % 4 == 0:
                    gc.collect()
            doc.hold.clear()
            gc.collect()
            doc.check_dump(rng_for('d', case['seed']), 'an edit is not visible')
            s.save_to(DIR + '/final.avb', 'little')
            env.nontrivial = doc.edits >= 2
            doc.f.close()


class EditSession(Session):
    def do_blob(self, rng):
        """change the bytes of a value in place"""
        doc = self.doc
        cands = []
        for i in doc.reach():
            d = doc.exp.objs[i]
            if d['_c'] == 'ATTR':
                cands += [(i, a[0]) for a in d['_a'] if a[1] == 4 and len(a[2])]
            elif d['_c'] not in ('PRLS', 'TMCS'):
                cands += [(i, k) for k in sorted(d) if isinstance(d[k], bytes) and len(d[k]) and
                          (ref.KINDS.get((d['_c'], k)) or '').startswith('bytes')]
        if not cands:
            return
        i, k = rng.choice(cands)
        d = doc.exp.objs[i]
        o = doc.live(i, rng)
        v = o[k] if d['_c'] == 'ATTR' else getattr(o, k)
        if not isinstance(v, bytearray):
            return
        n = rng.randrange(len(v))
        x = rng.getrandbits(8)
        v[n] = x
        del v, o
        if d['_c'] == 'ATTR':
            a = [a for a in d['_a'] if a[0] == k][0]
            a[2] = a[2][:n] + bytes([x]) + a[2][n + 1:]
        else:
            d[k] = d[k][:n] + bytes([x]) + d[k][n + 1:]
        doc.edits += 1


class D02(Prop):
    ID = 'D02'
    quick = {'pure': 2600, 'ext': 900}
    rule = ('a run visits objects of a shared graph over random paths (fields, lists, attributes, class iteration, '
            'direct index, mob lookup) while holding random subsets, edits through one path and reads through others; '
            'non-trivial when an object was reached by two different paths while held')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(4, 40), mobs=(1, 5))
        c['src'] = 'bytes'
        c['dag'] = rng.choice([0.4, 0.6, 0.8])
        c['ops'] = gen_ops(rng, [('twice', 5), ('hold', 3), ('drop', 1.5), ('gc', 1.5), ('edit_set', 2), ('edit', 1),
                                 ('index', 3), ('iter', 1), ('next', 2), ('byclass', 1), ('find', 1), ('reload', 1),
                                 ('reopen', 0.3), ('save', 0.3)], rng.choice([6, 12, 30]))
        if index % 120 == 57:
            enlarge(c, rng, gen_ops(rng, [('hold_all', 5), ('gc', 2), ('twice', 2), ('edit_many', 2), ('drop', 1), ('byclass', 2)], rng.choice([2, 4])))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = IdentitySession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            doc.check_dump(rng_for('d', case['seed']))
            doc.f.close()


class IdentitySession(ReadSession):
    def do_index(self, rng):
        if self.doc.index is None:
            return
        n = rng.choice(sorted(self.doc.index))
        i = self.doc.index[n]
        o = self.doc.f.read_object(n)
        self.doc.note(i, o)
        if i in self.doc.graph()[1]:
            p = self.doc.live(i, rng)
            if p is not o:
                raise Violation('two instances of one object', 'record %d by index and by path' % n)
            self.env.nontrivial = True
        if rng.random() < 0.4:
            self.doc.keep(i, o)

    def do_twice(self, rng):
        doc = self.doc
        i = doc.pick(rng)
        a = doc.live(i, rng)
        if rng.random() < 0.3:
            gc.collect()
        b = doc.live(i, rng)
        if a is not b:
            raise Violation('two instances of one object', '%s %d by two paths' % (doc.exp.objs[i]['_c'], i))
        if len(doc.graph()[0].get(i, ())) > 1:
            self.env.nontrivial = True
            self.env.count('reached by two paths')
        # and another object is another instance
        j = doc.pick(rng)
        c = doc.live(j, rng)
        if (c is a) != (i == j):
            raise Violation('two objects share an instance', '%d and %d' % (i, j))
        if rng.random() < 0.4:
            doc.keep(i, a)

    def do_byclass(self, rng):
        doc = self.doc
        if doc.index is None:
            return
        cid = rng.choice(sorted(set(doc.disk.values())))
        got = list(doc.f.iter_class_ids([cid.encode('ascii')]))
        want = [n for n in sorted(doc.index) if doc.disk[n] == cid]
        if len(got) != len(want):
            raise Violation('class iteration differs', '%s: %d of %d' % (cid, len(got), len(want)))
        for n, o in zip(want, got):
            doc.note(doc.index[n], o)
            if doc.f.read_object(n) is not o:
                raise Violation('two instances of one object', 'record %d' % n)
        del got

    def do_find(self, rng):
        doc = self.doc
        mobs = [it['mob'] for it in doc.exp.objs[doc.exp.root]['items'] if it['mob']]
        if not mobs:
            return
        i = rng.choice(mobs)
        mid = doc.exp.objs[i]['mob_id']
        if len({m for m in mobs if doc.exp.objs[m]['mob_id'] == mid}) > 1:
            return
        o = doc.f.content.find_by_mob_id(adapter.to_mobid(mid))
        doc.note(i, o) if o is not None else None
        if o is not doc.live(i, rng):
            raise Violation('two instances of one object', 'mob by id and by path')

    def do_reload(self, rng):
        """dropped and loaded again: same content"""
        self.doc.hold.clear()
        gc.collect()
        i = self.doc.pick(rng)
        self.doc.check_object(i, rng)


class D07(Prop):
    ID = 'D07'
    quick = {'pure': 1600, 'ext': 300}
    rule = ('a run keeps two to four documents open at once (some opened from the same file), interleaves random '
            'operations on them and creates and mutates objects with default values; each document must match its own '
            'model, instance numbers must be distinct; other runs perform two or three histories one by one, each with '
            'the package just imported, and then in turns: same outcomes, same bytes; non-trivial when two documents were '
            'edited or more than two turns taken')

    def twins(self, rng, index):
        """histories that are run alone as well"""
        k = rng.choice([2, 2, 3])
        out = []
        for n in range(k):
            if out and rng.random() < 0.3:
                c = dict(out[-1])
            else:
                c = gen_source(rng, index * 3 + n, size=(1, 15), mobs=(0, 3))
                c['big'], c['long'] = False, None
            c['src'] = rng.choice(['api', 'bytes', 'bytes'])
            c['ops'] = gen_ops(rng, EDIT_OPS + [('read', 3), ('drop', 1), ('gc', 0.5), ('save', 3), ('reopen', 1.5), ('saveover', 1),
                                                ('failsave', 1), ('copy', 1.5), ('newmob', 1), ('iter', 1), ('next', 2),
                                                ('dump', 1)], rng.choice([1, 4, 8]))
            out.append(c)
        return {'seed': out[0]['seed'], 'twins': out,
                'turns': [[rng.choice([1, 1, 1, 2, 3]), rng.randrange(6)] for i in range(40)]}

    def generate(self, rng, index, tier):
        if index % 4 == 3:
            return self.twins(rng, index)
        k = rng.choice([2, 2, 3, 4])
        docs = []
        for n in range(k):
            if docs and rng.random() < 0.4:
                d = dict(docs[-1])
                d['src'] = 'bytes'
            else:
                d = gen_source(rng, None if n else index, size=(1, 15))
                d['src'] = rng.choice(['api', 'bytes'])
            docs.append(d)
        ops = gen_ops(rng, EDIT_OPS + [('read', 2), ('drop', 1), ('gc', 1), ('save', 1), ('saveover', 0.3), ('reopen', 0.5),
                                       ('mutate', 5), ('next', 1), ('ids', 1), ('make', 1),
                                       ('fail', 0.7)], rng.choice([4, 10, 20]))
        for o in ops:
            o.append(rng.randrange(k))
        return {'seed': docs[0]['seed'], 'docs': docs, 'ops': ops}

    def run(self, case, env):
        if 'twins' in case:
            from .props_env import twins
            return twins(case, env)
        fs = new_fs(env, case)
        used = set()
        with simfs.active(fs):
            if not BASE:
                pristine(env, adapter.avb.file.AVBFile())
            ss = []
            for n, c in enumerate(case['docs']):
                doc = open_doc(env, c, fs, 'src%d.avb' % n)
                mark_disk(doc)
                s = ShareSession(env, c, doc)
                s.dirname = n
                ss.append(s)
            for op in case['ops']:
                s = ss[op[2] % len(ss)]
                s.step(op)
                if op[0].startswith('edit') or op[0] == 'mutate':
                    used.add(op[2])
            for n, s in enumerate(ss):
                s.doc.check_dump(rng_for('d', case['seed']), 'document changed by another one')
                s.save_to(DIR + '/final%d.avb' % n, 'little')
                s.do_ids(None)
            pristine(env, ss[0].doc.f)
            for s in ss:
                s.doc.f.close()
            env.nontrivial = len(used) > 1


class ShareSession(Session):
    def do_save(self, rng):
        self.save_to(DIR + '/out%d_%d.avb' % (self.dirname, rng.randint(0, 2)), rng.choice(['little', 'big']))

    def do_mutate(self, rng):
        """change the default values of a new object in place"""
        name = ref.CLASSES[rng.choice(sorted(ref.CLASSES))][1] if rng.random() < 0.7 else rng.choice(HELPER_NAMES)
        a = adapter.new_live(self.doc.f, name)
        before = shallow(adapter.new_live(self.doc.f, name))
        scribble(a, rng)
        after = shallow(adapter.new_live(self.doc.f, name))
        if before != after:
            keys = [k for k in before if before[k] != after.get(k)]
            raise Violation('defaults are shared', '%s: %s' % (name, keys))

    def do_ids(self, rng):
        g = self.doc.check_dump()
        seen = {}
        extra = [adapter.new_live(self.doc.f, 'Filler') for i in range(2)]
        for o in list(g.live.values()) + extra:
            k = getattr(o, 'instance_id', None)
            if k is None or k in seen:
                raise Violation('identity numbers are not distinct', '%r: %s and %s' % (
                    k, type(seen.get(k)).__name__, type(o).__name__))
            seen[k] = o

    def do_make(self, rng):
        """several calls of the factory under way at once"""
        f = self.doc.f
        names = rng.sample(sorted(set(c[1] for c in ref.CLASSES.values())) + HELPER_NAMES, rng.randint(2, 4))
        names = [n for n in names if n in adapter.avb.utils.AVBClassName_dict and n not in NOT_MADE]
        makers = [(n, getattr(f.create, n)) for n in names]
        rng.shuffle(makers)
        for n, make in makers:
            o = make()
            if type(o).__name__ != n:
                raise Violation('the factory made another class', '%s for %s' % (type(o).__name__, n))
            if getattr(o, 'root', None) is not f:
                raise Violation('the factory made an object of another document', n)

    def do_fail(self, rng):
        """an operation that fails must not affect other documents"""
        try:
            adapter.avb.file.AVBFile(io.BytesIO(b'\x06\x00Domainxxxxxxxxx'))
        except Exception:
            pass


NOT_MADE = ()
HELPER_NAMES = ['Track', 'EqualizerBand', 'ASPIPlugin', 'ASPIPluginChunk', 'BinItem', 'SiftItem', 'EffectParam',
                'ControlPoint', 'ParamControlPoint', 'ControlPointProperty', 'ParamControlPointProperty']


def shallow(o):
    """own plain values of an object, not times or generated ids"""
    out = {}
    for pdef in type(o).propertydefs:
        v = getattr(o, pdef.name, adapter.MISSING)
        if v is adapter.MISSING or pdef.name in ('mob_id', 'uid', 'creation_time', 'last_modified'):
            continue
        out[pdef.name] = plain(v, 0)
    if isinstance(o, list):
        out['[]'] = len(o)
    elif isinstance(o, dict):
        out['{}'] = len(o)
    return out


def plain(v, depth):
    if isinstance(v, (bytearray, bytes)):
        return bytes(v)
    if hasattr(v, 'propertydefs'):
        if isinstance(v, list):
            return ['list', len(v)]
        if isinstance(v, dict):
            return ['dict', len(v)]
        return [type(v).__name__, shallow(v)] if depth < 3 else type(v).__name__
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {k: plain(x, depth + 1) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return repr(v)


def scribble(o, rng):
    for pdef in type(o).propertydefs:
        v = getattr(o, pdef.name, adapter.MISSING)
        if isinstance(v, bytearray):
            for i in range(len(v)):
                v[i] = 0xEE
            v.extend(b'xx')
        elif isinstance(v, list) and not hasattr(v, 'propertydefs'):
            for x in v:
                if isinstance(x, dict):
                    x['scribble'] = 1
                elif isinstance(x, list):
                    x.append(99)
                elif hasattr(x, 'propertydefs'):
                    scribble(x, rng)
            v.append(12345)
        elif isinstance(v, list) or isinstance(v, dict):
            if isinstance(v, dict):
                v['scribble'] = 1
            elif rng.random() < 0.9:
                v.append(None)
        elif isinstance(v, adapter.avb.mobid.MobID):
            v.bytes_le[5] = 77 if isinstance(v.bytes_le, bytearray) else 0
        elif hasattr(v, 'propertydefs') and rng.random() < 0.5:
            scribble(v, rng)
    if isinstance(o, list) and hasattr(o, 'class_id') and o.class_id:
        o.append(None)
    if isinstance(o, dict):
        for k in list(o):
            v = o[k] if not isinstance(dict.get(o, k), adapter.avb.utils.AVBObjectRef) else None
            if isinstance(v, bytearray):
                v[:1] = b'scribble'
        o['scribble'] = 5


BASE = {}


def pristine(env, f):
    """objects made at the end have the defaults objects had in the first run of this process"""
    for cid in sorted(ref.CLASSES):
        name = ref.CLASSES[cid][1]
        s = shallow(adapter.new_live(f, name))
        b = BASE.setdefault(name, s)
        if b != s:
            raise Violation('defaults changed', '%s: %s' % (name, [k for k in b if b[k] != s.get(k)]))
