"""Histories of operations on documents, shared by several properties."""
import gc
import io

from . import simfs, ref, adapter, seams
from .core import Violation, HarnessError, derive, rng_for, unexpected
from .world import Doc, build_model, file_bytes, gen_source, clone_model

DIR = '/simfs/d'


def new_fs(env, case, faults=()):
    fs = simfs.SimFS(faults, stats=env.counts,
                     short_rng=rng_for('short', case['seed']) if case.get('short') else None)
    fs.mkdir_(DIR)
    return fs


def open_doc(env, case, fs, name='src.avb', mode=None):
    """the case's document, opened from the simulated disk or made through the API"""
    model = build_model(case)
    doc = Doc(env, case, fs, DIR + '/' + name, mode)
    if case.get('src') == 'api':
        doc.create(model)
        doc.path = None
    else:
        data, spans, refmap = file_bytes(case, model)
        if case.get('stream'):
            doc.open_stream(model, data, refmap)
            doc.path = None
        else:
            doc.open_bytes(model, data, refmap)
        doc.data, doc.spans, doc.refmap = data, spans, refmap
    return doc


def other(order):
    return 'big' if order == 'little' else 'little'


class Session(object):
    def __init__(self, env, case, doc):
        self.env = env
        self.case = case
        self.doc = doc
        self.fs = doc.fs
        self.last = None            # path of the last save
        self.bystander = False

    def step(self, op):
        name, seed = op[0], op[1]
        rng = rng_for('op', seed)
        self.env.log('op', name)
        self.env.count('op:' + name)
        getattr(self, 'do_' + name)(rng)

    def do_edit(self, rng):
        self.doc.edit(rng)

    def do_edit_set(self, rng): self.doc.edit(rng, 'set')
    def do_edit_nested(self, rng): self.doc.edit(rng, 'nested')
    def do_edit_list(self, rng): self.doc.edit(rng, 'list')
    def do_edit_attr(self, rng): self.doc.edit(rng, 'attr')
    def do_edit_ref(self, rng): self.doc.edit(rng, 'ref')
    def do_edit_mob(self, rng): self.doc.edit(rng, 'mob')

    def do_edit_many(self, rng):
        self.doc.edit_many(rng, rng.choice([0.3, 1.0]))

    def do_hold_all(self, rng):
        """every object is held at once, and found again another way"""
        doc = self.doc
        ids = list(doc.reach())
        rng.shuffle(ids)
        held = {}
        for i in ids:
            held[i] = doc.live(i, rng)
        doc.hold = held
        if len({id(o) for o in held.values()}) != len(held):
            raise Violation('two objects share an instance', '%d instances of %d objects' % (len({id(o) for o in held.values()}), len(held)))
        for i in ids[:500]:
            doc.live(i, rng)
        self.env.count('every object held at once')

    def do_read(self, rng):
        i = self.doc.pick(rng)
        self.doc.check_object(i, rng)

    def do_hold(self, rng):
        i = self.doc.pick(rng)
        self.doc.keep(i, self.doc.check_object(i, rng))

    def do_drop(self, rng):
        h = self.doc.hold
        if rng.random() < 0.5:
            h.clear()
        elif h:
            del h[rng.choice(sorted(h))]

    def do_gc(self, rng):
        gc.collect()

    def do_dump(self, rng):
        self.doc.check_dump(rng)

    def do_save(self, rng):
        path = DIR + '/' + rng.choice(['out.avb', 'out.avb', 'other.avb', 'new%d.avb' % rng.randint(0, 3)])
        self.save_to(path, rng.choice(['little', 'big']))

    def do_saveover(self, rng):
        if self.doc.path is None:
            return self.do_save(rng)
        self.save_to(self.doc.path, rng.choice(['little', 'big']))

    def save_to(self, path, order):
        data = self.doc.save(path, order)
        m = self.doc.read_back(data, order)
        self.env.log('saved', len(m.objs))
        self.env.count('saves')
        self.env.state(data)
        self.last = path
        self.last_model = clone_model(self.doc.exp)
        self.saved_model(m, data)
        return data

    def saved_model(self, m, data):
        pass

    def do_reopen(self, rng):
        if self.last is None:
            return
        self.doc.exp = self.last_model
        self.doc.reopen(self.last)
        self.env.count('reopens')

    def do_iter(self, rng):
        """start a traversal"""
        doc = self.doc
        if doc.index is None:
            return
        kind = rng.choice(['chunks', 'class', 'mobs', 'walk'])
        classes = sorted(set(d['_c'] for d in doc.exp.objs.values()))
        if kind == 'chunks':
            doc.iters.append(['chunks', iter(doc.f.chunks()), 0, None])
        elif kind == 'class':
            want = rng.sample(classes, min(len(classes), rng.randint(1, 3)))
            it = doc.f.iter_class_ids([c.encode('ascii') for c in want])
            doc.iters.append(['class', iter(it), 0, want])
        elif kind == 'mobs':
            doc.iters.append(['mobs', None, 0, None])
        if len(doc.iters) > 4:
            doc.iters.pop(0)

    def do_next(self, rng):
        """advance a traversal a few steps, others standing in between"""
        doc = self.doc
        if not doc.iters:
            return self.do_iter(rng)
        it = rng.choice(doc.iters)
        for n in range(rng.randint(1, 6)):
            if not self.advance(it):
                if it in doc.iters:
                    doc.iters.remove(it)
                break

    def original_class(self, n):
        """class id of on-disk object n"""
        return self.doc.disk[n]

    def advance(self, it):
        doc = self.doc
        kind, gen, pos, arg = it
        if kind == 'chunks':
            try:
                c = next(gen)
            except StopIteration:
                if pos != len(doc.index) + 1:
                    raise Violation('traversal ended early', 'chunks after %d of %d' % (pos, len(doc.index) + 1))
                return False
            if pos:
                i = doc.index.get(pos)
                start, end = doc.spans[i]
                if c.class_id != doc.disk[pos].encode('ascii') or c.pos != start + 8 or c.size != end - start - 8:
                    raise Violation('chunk differs', 'chunk %d: %r pos %d size %d' % (pos, c.class_id, c.pos, c.size))
                if rng_for('chunk', pos).random() < 0.5:
                    b = c.read()
                    if bytes(b) != doc.data[start + 8:end]:
                        raise Violation('chunk data differs', 'chunk %d' % pos)
            it[2] = pos + 1
            return True
        if kind == 'class':
            todo = [n for n in sorted(doc.index) if doc.disk[n] in arg]
            try:
                o = next(gen)
            except StopIteration:
                if pos != len(todo):
                    raise Violation('traversal ended early', 'class %s: %d of %d' % (arg, pos, len(todo)))
                return False
            if pos >= len(todo):
                raise Violation('traversal yields too much', '%s' % arg)
            i = doc.index[todo[pos]]
            if adapter.class_id(o) != doc.disk[todo[pos]]:
                raise Violation('traversal yields the wrong object', '%s for %s' % (adapter.class_id(o), doc.disk[todo[pos]]))
            if i in doc.graph()[1]:
                doc.note(i, o)
                mine = doc.live(i)
                if mine is not o:
                    raise Violation('two instances of one object', '%s %d by class iteration' % (doc.disk[todo[pos]], i))
            it[2] = pos + 1
            return True
        if kind == 'mobs':
            want = [x['mob'] for x in doc.exp.objs[doc.exp.root]['items'] if x['mob']]
            got = list(doc.f.content.mobs)
            if len(got) != len(want):
                raise Violation('mobs differ', '%d, expected %d' % (len(got), len(want)))
            for i, o in zip(want, got):
                doc.note(i, o)
                if doc.live(i) is not o:
                    raise Violation('two instances of one object', 'mob %d' % i)
            return False
        return False


def mark_disk(doc):
    """remember what the opened file held, before any edit"""
    doc.disk = {n: doc.exp.objs[i]['_c'] for n, i in (doc.index or {}).items()}


def gen_ops(rng, weights, n):
    names = [w[0] for w in weights]
    ws = [w[1] for w in weights]
    total = sum(ws)
    out = []
    for k in range(n):
        r = rng.random() * total
        for name, w in zip(names, ws):
            r -= w
            if r < 0:
                break
        out.append([name, rng.getrandbits(40)])
    return out


def check_structure(data, order, exp, reach):
    """A06: the saved file is consistent by itself and holds each object once, children first"""
    try:
        m = ref.decode_file(data)
    except ref.RefError as e:
        raise Violation('saved file is malformed', str(e))
    if m.order != order:
        raise Violation('saved file is in the wrong byte order', m.order)
    if m.root != len(m.objs):
        if exp is not None and m.objs[m.root]['_c'] != exp.objs[exp.root]['_c']:
            raise Violation('root record is not the root', m.objs[m.root]['_c'])
    for i, d in m.objs.items():
        for t in ref.ref_targets(d):
            if t >= i or t < 0:
                raise Violation('reference to a later record', 'object %d (%s) refers to %d' % (i, d['_c'], t))
    found = adapter.reachable(m)
    if len(found) != len(m.objs):
        raise Violation('unreachable record', '%d of %d records are reachable' % (len(found), len(m.objs)))
    if reach is not None and len(m.objs) != len(reach):
        raise Violation('object count differs', '%d records for %d objects' % (len(m.objs), len(reach)))
    return m
