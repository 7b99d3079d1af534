"""Properties about storage: crashes, failing calls, damaged files, handles."""
import gc
import io
import os
import random
import resource
import sys

from . import simfs, ref, adapter, seams
from .core import Violation, HarnessError, StepLimit, derive, rng_for, unexpected, where, avb_dir
from .props_doc import Prop, EDIT_OPS, ReadSession
from .session import Session, DIR, new_fs, open_doc, other, gen_ops, mark_disk
from .world import Doc, clone_model, gen_source, compare_dicts, build_model, file_bytes, spelled

FS_NOTE = ('Seeded search over faults and crash points: it shows the absence of violations on the runs counted in the '
           'evidence. Trusts the simulated file system (atomic rename; file contents after a crash are any subset of the '
           'writes since the last fsync, the name space any prefix of its changes) and the reference codec.')


class Interrupt(BaseException):
    """the process is told to stop in the middle of an operation"""


WHATS = {'write': ['EIO', 'ENOSPC', 'torn', 'EDQUOT'], 'open': ['EACCES', 'EMFILE', 'ENOSPC'], 'fsync': ['EIO', 'ENOSPC'],
         'close': ['EIO', 'ENOSPC'], 'rename': ['EIO', 'EACCES', 'ENOSPC'], 'read': ['EIO', 'eof'], 'seek': ['EIO'],
         'chmod': ['EPERM'], 'truncate': ['EIO'], 'unlink': ['EIO'], 'link': ['EIO']}

BESIDE = ['.avb', 'x.avb', '{}.tmp', '{}.bak', '{}~', '.{}.tmp', '.{}.swp', '{}.new', '{}.part', 'tmp', '{}.old', '_{}', 'temp.avb']


def place(fs, case, doc, rng):
    """the destination of a save -> (path, where its bytes live)"""
    kind = case['dest']
    if kind == 'source' and doc.path is None:
        kind = 'old'
    if kind == 'source':
        path = real = doc.path
    elif kind == 'sourcelink':
        if doc.path is None:
            path = real = DIR + '/out.avb'
        else:
            path, real = DIR + '/to_src.avb', doc.path
            fs.os_symlink(rng.choice([doc.path, os.path.basename(doc.path)]), path)
    elif kind == 'link':
        fs.mkdir_(DIR + '/other')
        real = DIR + '/other/real.avb'
        fs.put(real, b'previous content of the link target' * rng.randint(1, 400))
        path = DIR + '/out.avb'
        fs.os_symlink(rng.choice([real, 'other/real.avb']), path)
    elif kind == 'deep':
        fs.mkdir_(DIR + '/sub')
        path = real = DIR + '/sub/out.avb'
    elif kind == 'dots':
        path, real = DIR + '/../d/./out.avb', DIR + '/out.avb'
        fs.put(real, b'previous')
    else:
        path = real = DIR + '/out.avb'
    if kind == 'junk':
        fs.put(real, b'not a bin at all' * rng.randint(0, 300))
    elif kind == 'old':
        data, spans, rm = file_bytes(dict(case, seed=case['seed'] + 1, order='little'),
                                     build_model(dict(case, seed=case['seed'] + 1)))
        fs.put(real, data)
    base = os.path.basename(real)
    for n in rng.sample(range(len(BESIDE)), rng.randint(0, 5)):
        p = os.path.dirname(real) + '/' + BESIDE[n].format(base)
        if fs.names.get(p) is None:
            fs.put(p, b'beside %d' % n)
    return spelled(path, rng), real


def beside(fs, real):
    """every other file"""
    return {p: b for p, b in fs.listing().items() if p != real}


def set_faults(fs, faults):
    fs.set_faults([f for f in faults if f[0] not in ('capacity', 'interrupt')])
    stop = None
    for f in faults:
        if f[0] == 'capacity':
            fs.capacity = fs.used() + f[1]
        if f[0] == 'interrupt':
            stop = fs.opno + f[1]

    def on_op(kind, path):
        if stop is not None and fs.opno == stop:
            if fs.stats is not None:
                fs.stats['fault:interrupt:' + kind] = fs.stats.get('fault:interrupt:' + kind, 0) + 1
            raise Interrupt()
    fs.on_op = on_op if stop is not None else None


def clear(fs):
    fs.clear_faults()
    fs.on_op = None


def gen_fault(rng):
    r = rng.random()
    if r < 0.15:
        return ['capacity', rng.choice([0, 1, 100, 1000, 5000]), '', False]
    if r < 0.3:
        return ['interrupt', rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 25, 40]), '', False]
    kind = rng.choice(['write', 'write', 'write', 'fsync', 'close', 'rename', 'open', 'read', 'seek', 'chmod', 'unlink'])
    return [kind, rng.choice([1, 1, 1, 2, 2, 3, 5, 9]), rng.choice(WHATS[kind]), rng.random() < 0.25]


def looks_complete(doc, data):
    try:
        doc.read_back(data, None)
        return True
    except Violation:
        return False


INTS = ('u8', 's16', 'u16', 's32', 'u32', 'u64', 's64')
STRINGS = ('str', 'nstr', 'str8')


def bad_value(doc, rng):
    """make one reachable object impossible to encode -> undo function, or None"""
    cands = []
    for i in doc.reach():
        d = doc.exp.objs[i]
        if d['_c'] == 'ATTR':
            cands += [(i, a[0], 'attr') for a in d['_a'] if a[1] == 1]
        elif d['_c'] not in ('PRLS', 'TMCS'):
            for k in sorted(d):
                kind = ref.KINDS.get((d['_c'], k))
                if k == 'value_type' and d['_c'] in ('PRIT', 'PRCL') and (d['_c'] == 'PRIT' or d['control_points']):
                    cands.append((i, k, 'code'))
                elif isinstance(d[k], int) and kind in INTS and not adapter.is_ref(d, d, k):
                    cands.append((i, k, 'int'))
                elif kind in STRINGS and (d[k] is None or isinstance(d[k], str)):
                    cands.append((i, k, 'text'))
                elif isinstance(d[k], list) and adapter.helper_name(d['_c'], k) and d[k]:
                    n = rng.randrange(len(d[k]))
                    cands += [(i, (k, n, x), 'element') for x in sorted(d[k][n]) if isinstance(d[k][n][x], int) and
                              ref.KINDS.get((d['_c'], x)) in INTS and not adapter.is_ref(d, d[k][n], x)]
    if not cands:
        return None
    hows = sorted({c[2] for c in cands})
    pick = rng.choice(hows)
    i, k, how = rng.choice([c for c in cands if c[2] == pick])
    o = doc.live(i, rng)
    if how == 'attr':
        o[k] = rng.choice([1 << 40, -(1 << 40), 1.5, b'bytes', [1]])
        old = [a[2] for a in doc.exp.objs[i]['_a'] if a[0] == k][0]

        def undo():
            o[k] = old
    elif how == 'element':
        # the owner stays modified while the element is bad, and is collected or not
        old = doc.exp.objs[i][k[0]][k[1]][k[2]]
        setattr(getattr(o, k[0])[k[1]], k[2], rng.choice([1 << 70, -(1 << 70), 'text', [], 1 << 65]))

        def undo():
            setattr(getattr(o, k[0])[k[1]], k[2], old)
    else:
        old = doc.exp.objs[i][k]
        kind = ref.KINDS.get((doc.exp.objs[i]['_c'], k))
        if how == 'code':
            setattr(o, k, rng.choice([0, 3, 5]))
        elif how == 'text':
            setattr(o, k, rng.choice([u'x' * (65535 if kind != 'str8' else 65533), u'x' * 65535, u'x' * 65536, 7] +
                                     [u'\u4e00'] * (kind != 'str8')))
        else:
            setattr(o, k, rng.choice([1 << 70, -(1 << 70), 'text', [], 1 << 65]))

        def undo():
            setattr(o, k, old)
    return undo


def handles(fs):
    return dict((fd, d.path) for fd, d in fs.fds.items())


class B01(Prop):
    ID = 'B01'
    level = 'fault_enumeration'
    technique = 'deterministic simulation with crash-point enumeration and injected storage faults'
    note = FS_NOTE
    quick = {'pure': 7800}
    rule = ('a run edits a document and saves it several times to one destination (new, junk, another bin, its own source, '
            'symbolic links) with injected faults, full disks, interrupts and unencodable values; after every save all '
            'crash points of its effect log are enumerated, several reorderings each; non-trivial when a save had at '
            'least five effects')
    states_rule = 'hashes of the destination content (or absence) in every crash state'

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, rng.choice([10, 40, 120])))
        c['src'] = rng.choice(['api', 'bytes', 'bytes'])
        c['dest'] = rng.choice(['new', 'junk', 'old', 'source', 'link', 'deep', 'sourcelink', 'dots'])
        c['ops'] = gen_ops(rng, EDIT_OPS + [('hold', 1), ('gc', 0.5)], rng.choice([0, 2, 5]))
        saves = []
        for n in range(rng.randint(1, 4)):
            faults = [gen_fault(rng) for k in range(rng.choice([0, 0, 1, 1, 2]))]
            saves.append([rng.choice(['little', 'big']), faults, rng.random() < 0.12, rng.getrandbits(30)])
        c['misc_saves'] = saves
        c['ops2'] = saves
        del c['misc_saves']
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        rng = rng_for('b01', case['seed'])
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            s = Session(env, case, doc)
            for op in case['ops']:
                s.step(op)
            path, real = place(fs, case, doc, rng)
            # what a stopping machine may lose was durable before
            for order, faults, bad, seed in case['ops2']:
                r = rng_for('save', seed)
                if r.random() < 0.4:
                    doc.edit(r)
                undo = bad_value(doc, r) if bad else None
                before = fs.get(real)
                others = beside(fs, real)
                fs.record()
                set_faults(fs, faults)
                ok = False
                try:
                    doc.f.write(path, order)
                    ok = True
                except Interrupt:
                    pass
                except Exception as e:
                    if not fs.fired and not undo and not any(f[0] == 'capacity' for f in faults):
                        raise unexpected('save', e)
                clear(fs)
                fs.fired = []
                after = fs.get(real)
                env.log('save', order, ok, undo is not None)
                env.count('saves completed' if ok else 'saves failed')
                if undo:
                    if ok:
                        raise Violation('a value that does not fit was saved')
                    undo()
                if ok:
                    if after is None:
                        raise Violation('a save that returned left no file')
                    doc.read_back(after, order)
                elif after != before:
                    if after is None or not looks_complete(doc, after):
                        raise Violation('a failed save damaged the destination', 'was %s bytes, is %s' % (
                            before if before is None else len(before), after if after is None else len(after)))
                self.crashes(env, fs, doc, real, before, after, r)
                now = beside(fs, real)
                for p in others:
                    if now.get(p) != others[p]:
                        raise Violation('another file was touched', p)
            doc.f.close()

    def crashes(self, env, fs, doc, real, before, after, r):
        n = fs.crash_points()
        if n > 5:
            env.nontrivial = True
        env.count('effects', n - 1)
        ks = list(range(n))
        if n > 60:
            ks = sorted(r.sample(ks, 60))
        good = {before, after}
        rr = random.Random(r.getrandbits(40))
        for k in ks:
            for j in range(4):
                s = fs.crash_state(k, rr, real)
                env.count('crash states checked')
                env.state(b'none' if s is None else s)
                if s in good:
                    continue
                if s is not None and looks_complete(doc, s):
                    good.add(s)
                    continue
                raise Violation('a crash leaves a damaged destination', 'after effect %d of %d: %s bytes, old %s, new %s' % (
                    k, n - 1, 'no file' if s is None else len(s), before if before is None else len(before),
                    after if after is None else len(after)))
            for p, v in fs.base.items():
                if p != real and v[2] is None and fs.crash_state(k, rr, p) != v[1]:
                    raise Violation('a crash leaves another file damaged', p)


class B02(Prop):
    ID = 'B02'
    level = 'fault_enumeration'
    technique = 'deterministic simulation: a fault at every storage operation of a save, then a retry'
    note = FS_NOTE
    quick = {'pure': 3300}
    rule = ('a run builds a document twice from the same seed; the twin is saved undisturbed to learn the storage '
            'operations and the bytes, then the other is saved with a fault at each of (up to 14 of) those operations and '
            'with unencodable values; after each failure debris, handles, the document and a retry are checked; '
            'non-trivial when at least three saves failed')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, rng.choice([10, 30])))
        c['src'] = rng.choice(['api', 'bytes', 'bytes', 'bytes'])
        c['dest'] = rng.choice(['new', 'junk', 'old', 'source', 'link', 'deep', 'sourcelink', 'dots'])
        c['ops'] = gen_ops(rng, EDIT_OPS + [('hold', 1), ('gc', 0.5), ('drop', 0.5)], rng.choice([0, 2, 5]))
        c['final'] = rng.choice(['little', 'big'])
        c['cuts'] = [[rng.random(), rng.getrandbits(30), rng.random() < 0.2] for i in range(14)]
        c['misc'] = c['misc']
        return c

    def build(self, case, env):
        seams.begin(case['seed'])
        fs = new_fs(env, case)
        simfs.ACTIVE[0] = fs
        doc = open_doc(env, case, fs)
        mark_disk(doc)
        s = Session(env, case, doc)
        for op in case['ops']:
            s.step(op)
        path, real = place(fs, case, doc, rng_for('b02', case['seed']))
        return fs, doc, path, real

    def run(self, case, env):
        order = case['final']
        try:
            fs, doc, path, real = self.build(case, env)
            if case['dest'] in ('source', 'sourcelink'):
                # the twin's source must survive for its own reads
                pass
            fs.trace = []
            doc.f.write(path, order)
            want = fs.get(real)
            plan = [k for k, hit in fs.trace]
            doc.read_back(want, order)
            doc.f.close()

            fs, doc, path, real = self.build(case, env)
            failed = 0
            for pos, seed, sticky in case['cuts']:
                r = rng_for('point', seed)
                undo = None
                if r.random() < 0.2:
                    undo = bad_value(doc, r)
                    faults = []
                    if undo is None:
                        continue
                elif r.random() < 0.08:
                    faults = [['capacity', r.randint(0, len(want)), '', False]]
                elif r.random() < 0.12 and plan[int(pos * len(plan))] != 'unlink':
                    # the user or the system interrupts it there
                    faults = [['interrupt', int(pos * len(plan)) + 1, '', False]]
                else:
                    k = int(pos * len(plan))
                    kind = plan[k]
                    nth = plan[:k + 1].count(kind)
                    faults = [[kind, nth, r.choice(WHATS[kind]), sticky and kind != 'unlink']]
                before = fs.get(real)
                others = beside(fs, real)
                open_ = handles(fs)
                set_faults(fs, faults)
                ok, err = False, None
                try:
                    doc.f.write(path, order)
                    ok = True
                except Interrupt as e:
                    err = e
                except Exception as e:
                    err = e
                    if not fs.fired and not undo:
                        raise unexpected('save', e)
                hit = list(fs.fired)
                clear(fs)
                fs.fired = []
                after = fs.get(real)
                env.log('save', faults, ok, len(hit))
                if handles(fs) != open_:
                    raise Violation('a handle stays open after a save', '%s %s' % (
                        'it failed' if err else 'it returned', sorted(set(handles(fs).values()))))
                del err
                if ok:
                    if undo:
                        raise Violation('a value that does not fit was saved')
                    if after != want:
                        raise Violation('a save returned without the complete file',
                                        'fault %s, %s bytes instead of %d' % (faults, after if after is None else len(after), len(want)))
                    env.count('saves unaffected by the fault')
                else:
                    failed += 1
                    env.count('saves failed')
                    if after != before and after != want:
                        raise Violation('a failed save damaged the destination')
                if undo:
                    undo()
                now = beside(fs, real)
                if ok or not any(f[0] == 'unlink' for f in hit):
                    extra = sorted(set(now) - set(others))
                    if extra:
                        raise Violation('a save left debris', '%s' % extra[:3])
                for p in others:
                    if now.get(p) != others[p]:
                        raise Violation('another file was touched', p)
                if not ok and r.random() < 0.25:
                    doc.check_dump(r, 'a failed save changed the document')
                if not ok and r.random() < 0.5:
                    doc.check_object(doc.pick(r), r)
                if not ok and r.random() < 0.6:
                    try:
                        doc.f.write(path, order)
                    except Exception as e:
                        raise unexpected('retry of a save', e)
                    data = fs.get(real)
                    env.count('retries')
                    if data != want:
                        raise Violation('a retry wrote other bytes', '%s bytes, %d expected' % (data and len(data), len(want)))
                    if set(beside(fs, real)) - set(others):
                        raise Violation('a save left debris', 'after the retry')
                    if handles(fs) != open_:
                        raise Violation('a handle stays open after a save', 'after the retry')
            doc.check_dump(rng_for('d', case['seed']), 'a failed save changed the document')
            doc.f.write(path, order)
            if fs.get(real) != want:
                raise Violation('a retry wrote other bytes', '')
            if case['seed'] % 8 == 0:
                # a descriptor the program opened is written in place
                open_ = handles(fs)
                fd = os.open(DIR + '/byfd.avb', os.O_RDWR | os.O_CREAT)
                try:
                    doc.f.write(fd, order)
                except Exception as e:
                    raise unexpected('save to a descriptor', e)
                if fs.get(DIR + '/byfd.avb') != want:
                    raise Violation('a save returned without the complete file', 'to a descriptor')
                if handles(fs) != open_:
                    raise Violation('a handle stays open after a save', 'to a descriptor')
            env.state(want)
            doc.f.close()
            env.nontrivial = failed >= 3
        finally:
            simfs.ACTIVE[0] = None


class B03(Prop):
    ID = 'B03'
    level = 'fault_enumeration'
    technique = 'deterministic simulation: saves over the open source with faults and crash points'
    note = FS_NOTE
    quick = {'pure': 4100, 'ext': 850}
    rule = ('a run opens a file, makes random edits and partial loads and saves the document over its own path (also '
            'through links and other spellings) several times with faults, interrupts and crashes, reading and editing on '
            'after each; non-trivial when at least one object had not been loaded when a save over the source began')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, rng.choice([10, 40])))
        c['src'] = 'bytes'
        c['ops'] = gen_ops(rng, EDIT_OPS + [('read', 2), ('hold', 1), ('gc', 1), ('drop', 1), ('over', 6), ('next', 1),
                                            ('second', 0.5), ('reopen', 0.3)], rng.choice([2, 5, 9, 16]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            doc = open_doc(env, case, fs)
            mark_disk(doc)
            doc.env = env
            s = OverSession(env, case, doc)
            for op in case['ops']:
                s.step(op)
            s.do_over(rng_for('last', case['seed']), [])
            doc.check_dump(rng_for('d', case['seed']), 'the document differs after saving over its source')
            g = Doc(env, case, fs, doc.path)
            g.exp = doc.exp
            g.f = g.open(doc.path)
            g.check_dump(rng_for('e', case['seed']), 'the saved source differs')
            g.f.close()
            doc.f.close()


class OverSession(Session):
    def do_over(self, rng, faults=None):
        doc, fs = self.doc, self.fs
        order = rng.choice(['little', 'big'])
        path = real = doc.path
        how = rng.random()
        if how < 0.15:
            path = DIR + '/link%d.avb' % rng.randint(0, 3)
            fs.names.pop(path, None)
            fs.os_symlink(real, path)
        elif how < 0.25:
            path = DIR + '/../d/' + os.path.basename(real)
        if faults is None:
            faults = [gen_fault(rng) for k in range(rng.choice([0, 0, 1, 2]))]
        if len(doc.f.object_cache) < len(doc.reach()):
            self.env.nontrivial = True
        before = fs.get(real)
        fs.record()
        set_faults(fs, faults)
        ok = False
        try:
            doc.f.write(path, order)
            ok = True
        except Interrupt:
            pass
        except Exception as e:
            if not fs.fired:
                raise unexpected('save', e)
        clear(fs)
        fs.fired = []
        after = fs.get(real)
        self.env.log('over', order, ok)
        self.env.count('saves over the source' if ok else 'failed saves over the source')
        if ok:
            if after is None:
                raise Violation('the source is gone')
            doc.read_back(after, order)
            self.env.state(after)
            self.last = real
            self.last_model = clone_model(doc.exp)
        elif after != before and (after is None or not looks_complete(doc, after)):
            raise Violation('a failed save damaged the source')
        n = fs.crash_points()
        good = {before, after}
        rr = random.Random(rng.getrandbits(40))
        for k in range(n) if n < 40 else sorted(rng.sample(range(n), 40)):
            for j in range(3):
                s = fs.crash_state(k, rr, real)
                self.env.count('crash states checked')
                if s not in good:
                    if s is not None and looks_complete(doc, s):
                        good.add(s)
                        continue
                    raise Violation('a crash leaves a damaged source', 'after effect %d of %d' % (k, n - 1))
        for j in range(rng.randint(0, 3)):
            doc.check_object(doc.pick(rng), rng)
        if rng.random() < 0.2:
            doc.check_dump(rng, 'the document differs after saving over its source')

    def do_second(self, rng):
        """what is at the path now can be opened while the document is in use"""
        if self.last is None:
            return
        g = Doc(self.env, self.case, self.fs, self.last)
        g.exp = self.last_model
        g.f = g.open(self.last)
        g.check_dump(rng, 'the saved source differs')
        g.f.close()


# --------------------------------------------------------------------------

class FaultyStream(object):
    """a stream of the caller's; the plan decides what its calls do"""

    def __init__(self, data, stats=None):
        self.b = io.BytesIO(data)
        self.plan = []
        self.n = {}
        self.fired = 0
        self.closed_by = 0
        self.stats = stats

    def _hit(self, kind):
        c = self.n[kind] = self.n.get(kind, 0) + 1
        for k, nth, what, sticky in self.plan:
            if k == kind and (c == nth or sticky and c > nth):
                self.fired += 1
                if self.stats is not None:
                    key = 'fault:stream %s:%s' % (kind, what)
                    self.stats[key] = self.stats.get(key, 0) + 1
                return what
        return None

    def set(self, plan):
        self.plan = plan
        self.n = {}
        self.fired = 0

    def read(self, n=-1):
        w = self._hit('read')
        if w == 'eof':
            return b''
        if w == 'short' and n > 1:
            return self.b.read(max(1, n // 2))
        if w and w != 'short':
            if w == 'MEMORY':
                raise MemoryError()
            raise OSError(5, 'stream fails')
        return self.b.read(n)

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def seek(self, pos, how=0):
        if self._hit('seek'):
            raise OSError(5, 'stream fails')
        return self.b.seek(pos, how)

    def tell(self):
        return self.b.tell()

    def seekable(self): return True
    def readable(self): return True
    def writable(self): return False

    @property
    def closed(self):
        return self.b.closed

    def close(self):
        self.closed_by += 1
        self.b.close()


class C01(Prop):
    ID = 'C01'
    technique = 'deterministic simulation: failing, short and ending reads during every kind of operation'
    note = FS_NOTE
    quick = {'pure': 4400, 'ext': 1200}
    rule = ('a run opens a generated file from the simulated disk or a caller\'s stream and performs random reads, '
            'traversals, opens, saves, copies and lookups, each with injected read and seek errors, short reads and early '
            'ends of file, and again after the faults stop; non-trivial when at least one fault hit')
    ACTIONS = [('object', 5), ('dump', 1), ('index', 4), ('class', 1.5), ('chunks', 1), ('open', 2), ('save', 1.5),
               ('copy', 1), ('mobs', 1), ('attr', 1), ('edit', 1), ('gc', 2), ('drop', 1)]

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, rng.choice([10, 40])))
        c['src'] = 'bytes'
        c['short'] = False
        c['buffering'] = rng.choice([1, 8, 8, 16, 40, 100, 513, 8192])
        c['stream'] = rng.random() < 0.4
        c['ops'] = gen_ops(rng, self.ACTIONS, rng.choice([2, 5, 9, 16]))
        for o in c['ops']:
            plan = []
            for k in range(rng.choice([1, 1, 1, 2])):
                kind = rng.choice(['read', 'read', 'read', 'seek'])
                plan.append([kind, rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 9, 14, 20, 30]),
                             rng.choice(['EIO', 'short', 'eof', 'MEMORY']) if kind == 'read' else 'EIO', rng.random() < 0.3])
            if rng.random() < 0.4:
                # an allocation fails while a record is decoded
                plan.append(['line', rng.choice([1, 2, 4, 8, 15, 30, 60, 120, 250, 500]), 'MEMORY', False])
            o.append(plan)
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            model = build_model(case)
            doc = Doc(env, case, fs, DIR + '/src.avb')
            data, spans, refmap = file_bytes(case, model)
            doc.data, doc.spans, doc.refmap = data, spans, refmap
            stream = None
            if case['stream']:
                stream = FaultyStream(data, env.counts)
                doc.open_stream(model, data, refmap, stream)
                doc.path = None
                fs.put(DIR + '/src.avb', data)
            else:
                doc.open_bytes(model, data, refmap)
            mark_disk(doc)
            s = FaultSession(env, case, doc)
            s.stream = stream
            for op in case['ops']:
                s.step(op)
                env.nontrivial = env.nontrivial or s.hits > 0
            doc.check_dump(rng_for('d', case['seed']), 'the document differs after storage errors')
            doc.f.close()


class FailingLine(object):
    """an allocation fails at the n-th line run in the record readers (CPython only)"""

    def __init__(self, n):
        self.left = n
        self.fired = 0

    def __enter__(self):
        if self.left and sys.implementation.name == 'cpython':
            sys.settrace(self.call)
        return self

    def call(self, frame, event, arg):
        code = frame.f_code
        if code.co_name == 'read' and code.co_filename.startswith(avb_dir()) and not code.co_filename.endswith('file.py'):
            return self.line

    def line(self, frame, event, arg):
        if event == 'line' and self.left:
            self.left -= 1
            if not self.left:
                self.fired = 1
                sys.settrace(None)
                raise MemoryError('no memory')
        return self.line

    def __exit__(self, *a):
        sys.settrace(None)


class FaultSession(Session):
    hits = 0

    def step(self, op):
        name, seed, plan = op
        self.env.count('op:' + name)
        if name in ('gc', 'drop', 'edit'):
            return getattr(self, 'do_' + name)(rng_for('op', seed))
        act = getattr(self, 'act_' + name)
        fs, st = self.fs, self.stream
        fs.fired = []
        lines = FailingLine(sum(p[1] for p in plan if p[0] == 'line'))
        plan = [[k, n, 'short' if w == 'MEMORY' and st is None else w, x] for k, n, w, x in plan if k != 'line']
        ok = True
        fs.set_faults(plan)
        if st is not None:
            st.set(plan)

        def fired():
            return len(fs.fired) + (st.fired if st is not None else 0) + lines.fired

        def again():
            try:
                act(rng_for('op', seed))
            except Violation:
                raise
            except Exception as e:
                raise unexpected(name + ' after the storage works again', e)
        r = rng_for('after', seed)
        try:
            with lines:
                act(rng_for('op', seed))
        except Violation:
            self.calm()
            raise
        except Exception as e:
            ok = False
            if not fired():
                self.calm()
                raise unexpected(name, e)
            if lines.fired:
                self.env.count('fault:allocation fails while decoding')
            self.calm()
            if r.random() < 0.5:
                # while the failure is being handled: what was half read is still alive
                self.env.count('retries while the failure is handled')
                again()
        hit = fired()
        self.calm()
        self.hits += hit
        self.env.log(name, ok, hit)
        self.env.count('operations failed' if not ok else 'operations completed under faults' if hit else 'operations undisturbed')
        if not ok:
            if r.random() < 0.4:
                # an edit that needs no storage, straight after the failure
                self.edit_held(r)
            gc.collect() if self.env.mode == 'ext' and self.hits % 7 == 0 else None
            again()

    def edit_held(self, rng):
        """change plain fields of an object in hand, then let go of it"""
        doc = self.doc
        reach = set(doc.reach())
        ids = [i for i in sorted(doc.hold) if i in reach]
        rng.shuffle(ids)
        for i in ids:
            obj = doc.hold[i]
            d = doc.exp.objs[i]
            edit = doc.plain_edit(rng, i)
            if edit is None:
                continue
            nd, keys = edit
            for k in keys:
                setattr(obj, k, adapter.to_live(doc.f, nd, k, nd[k], {}))
            doc.exp.objs[i] = nd
            doc.touch()
            self.env.count('edits straight after a failure')
            if rng.random() < 0.7:
                obj = None
                doc.hold.clear()
                gc.collect()
            return

    def calm(self):
        self.fs.clear_faults()
        if self.stream is not None:
            self.stream.set([])

    def act_object(self, rng):
        i = self.doc.pick(rng)
        o = self.doc.check_object(i, rng)
        if rng.random() < 0.3:
            self.doc.keep(i, o)

    def act_dump(self, rng):
        self.doc.check_dump(rng, 'content read under storage errors differs')

    def act_index(self, rng):
        doc = self.doc
        n = rng.choice(sorted(doc.index))
        o = doc.f.read_object(n)
        if adapter.class_id(o) != doc.disk[n]:
            raise Violation('wrong class', 'record %d' % n)
        i = doc.index[n]
        if i in doc.graph()[1]:
            out = []
            compare_dicts(doc.exp.objs[i], adapter.Dumper().one(o), out, lambda a, b, w: out.append(w) if bool(a) != bool(b) else 0)
            if out:
                raise Violation('value differs', out[0])

    def act_class(self, rng):
        doc = self.doc
        cid = rng.choice(sorted(set(doc.disk.values())))
        got = list(doc.f.iter_class_ids([cid.encode('ascii')]))
        want = [n for n in sorted(doc.index) if doc.disk[n] == cid]
        if len(got) != len(want):
            raise Violation('class iteration differs', '%s: %d of %d' % (cid, len(got), len(want)))

    def act_chunks(self, rng):
        doc = self.doc
        n = 0
        for c in doc.f.chunks():
            b = bytes(c.read())
            if n:
                start, end = doc.spans[doc.index[n]]
                if b != doc.data[start + 8:end] or c.class_id != doc.disk[n].encode('ascii'):
                    raise Violation('chunk data differs', 'chunk %d' % n)
            n += 1
        if n != len(doc.index) + 1:
            raise Violation('traversal ended early', 'chunks')

    def act_open(self, rng):
        doc = self.doc
        if self.stream is not None:
            st = FaultyStream(doc.data, self.env.counts)
            st.set(self.stream.plan)
            src = st
        else:
            st, src = None, doc.path
        kw = {} if st is not None else {'buffering': self.case['buffering']}
        f = None
        try:
            f = adapter.avb.open(src, use_ext=doc.use_ext, **kw)
            g = adapter.dump(f, rng)
            m = build_model(self.case)
            diffs = ref.same_models(m, g)
            if diffs:
                raise Violation('content read under storage errors differs', '; '.join(diffs[:3]))
            for k in ('creator_version', 'last_save'):
                getattr(f, k)
            if f.creator_version.rstrip() != doc.exp.creator.rstrip() or adapter.stamp(f.last_save) != doc.exp.last_save:
                raise Violation('header differs', '%r %r' % (f.creator_version, f.last_save))
        finally:
            if f is not None:
                f.close()
            if st is not None:
                self.stream.fired += st.fired

    def act_save(self, rng):
        path = DIR + '/saved.avb'
        order = rng.choice(['little', 'big'])
        self.doc.f.write(path, order)
        self.doc.read_back(self.fs.get(path), order)

    def act_copy(self, rng):
        doc = self.doc
        i = doc.pick(rng)
        o = doc.live(i, rng)
        g = adapter.avb.file.AVBFile()
        c = o.copy(g)
        m = adapter.dump(g, rng, root=c)
        w = clone_model(doc.exp)
        w.root = i
        w.last_save = m.last_save = None
        diffs = ref.same_models(w, m)
        if diffs and not shared_below(w, i):
            raise Violation('a copy made under storage errors differs', '; '.join(diffs[:3]))

    def act_mobs(self, rng):
        doc = self.doc
        want = [it['mob'] for it in doc.exp.objs[doc.exp.root]['items'] if it['mob']]
        got = list(doc.f.content.mobs)
        if len(got) != len(want):
            raise Violation('mobs differ', '%d, expected %d' % (len(got), len(want)))
        if want:
            i = rng.choice(want)
            mid = doc.exp.objs[i]['mob_id']
            o = doc.f.content.find_by_mob_id(adapter.to_mobid(mid))
            if o is None or bytes(o.mob_id.bytes_le) != mid:
                raise Violation('mob lookup is wrong', '%r' % o)

    def act_attr(self, rng):
        doc = self.doc
        i = doc.pick(rng, ('ATTR', 'PRLS', 'SEQU'))
        if i is not None:
            doc.check_object(i, rng)


def shared_below(m, i):
    """some object is reached twice (whether copies keep sharing is D05's business)"""
    count = {}
    todo = [i]
    seen = {i}
    while todo:
        for t in ref.ref_targets(m.objs[todo.pop()]):
            if t:
                count[t] = count.get(t, 0) + 1
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return any(c > 1 for c in count.values())


# --------------------------------------------------------------------------

class Partial(adapter.Dumper):
    """own values of one object; references that cannot be followed are marked"""

    def __init__(self, ok):
        adapter.Dumper.__init__(self)
        self.ok = ok


BROKEN = ('broken',)


def own_values(obj, d):
    """like Dumper.one, but a reference may fail -> (fields, list of references)"""
    refs = {}

    def put(o):
        k = len(refs) + 1
        refs[k] = o
        return k

    def get(fn):
        try:
            o = fn()
        except Exception:
            return put(BROKEN)
        return 0 if o is None else put(o)

    class D(adapter.Dumper):
        def refid(self, o):
            return 0 if o is None else put(o)

        def fields(self, o):
            out = {}
            for pdef in type(o).propertydefs:
                k = pdef.name
                try:
                    v = getattr(o, k, adapter.MISSING)
                except Exception:
                    out[k] = put(BROKEN)
                    continue
                if v is adapter.MISSING:
                    continue
                if (isinstance(v, list) and getattr(type(v), 'class_id', None) is None and
                        (hasattr(type(v), 'propertydefs') or k in ref.REF_FIELDS and k != 'value' and
                         not any(isinstance(x, dict) for x in v))):
                    out[k] = [get(lambda n=n: v[n]) for n in range(len(v))]
                else:
                    out[k] = self.value(v)
            return out
    dm = D()
    c = adapter.class_id(obj)
    if c == 'ATTR':
        items = []
        for k in obj:
            try:
                v = obj[k]
            except Exception:
                items.append([k, 3, put(BROKEN)])
                continue
            if isinstance(v, int):
                items.append([k, 1, int(v)])
            elif isinstance(v, str):
                items.append([k, 2, v])
            elif isinstance(v, (bytes, bytearray)):
                items.append([k, 4, bytes(v)])
            else:
                items.append([k, 3, dm.refid(v)])
        return {'_c': c, '_a': items}, refs
    if c in ('PRLS', 'TMCS'):
        return {'_c': c, '_l': [get(lambda n=n: obj[n]) for n in range(len(obj))]}, refs
    got = {'_c': c}
    got.update(dm.fields(obj))
    return got, refs


class StepCounter(object):
    """ends the run when the code makes more calls than its input warrants"""

    def __init__(self, limit):
        self.left = limit
        self.limit = limit

    def __enter__(self):
        if sys.implementation.name == 'cpython':
            sys.setprofile(self.tick)
        return self

    def tick(self, frame, event, arg):
        self.left -= 1
        if self.left < 0:
            sys.setprofile(None)
            raise StepLimit('steps')

    def __exit__(self, *a):
        sys.setprofile(None)


LIMITED = []


def limit_memory(extra=1500 << 20):
    """the address space of this worker ends a little above what it uses now"""
    if LIMITED:
        return
    with open('/proc/self/statm') as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (now + extra, hard))
    LIMITED.append(1)


def peak():
    with open('/proc/self/status') as f:
        for line in f:
            if line.startswith('VmHWM'):
                return int(line.split()[1]) << 10
    return 0


class C02(Prop):
    ID = 'C02'
    technique = 'deterministic simulation: seeded corruption of stored bytes under step, time and memory budgets'
    note = ('Seeded search, not proof. An object counts as intact when its record and every record header before it are '
            'unaltered. Budgets: calls on CPython, wall time and address space on both. Trusts the reference encoder.')
    quick = {'pure': 8800, 'ext': 3300}
    fragile = True
    wall_limit = 20
    rule = ('a run damages a generated file (bit flips, bytes, lengths, counts and references overwritten with chosen '
            'values, single tags, types, counts and numbers changed where a record has them, cuts, insertions, '
            'duplicated, swapped and zeroed ranges), opens it and reads every object in random '
            'order, twice, comparing each intact object with its stored values; non-trivial when the file still opened')
    states_rule = 'hashes of the damaged files'

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, rng.choice([8, 25, 40])))
        c['src'] = 'bytes'
        c['stream'] = rng.random() < 0.3
        kinds = (['bit', 'byte', 'word', 'half', 'ref', 'ff', 'swap'] * 4 + ['field'] * 4 + ['fields'] * 12 + ['zero', 'class', 'len'] * 2 +
                 ['dup', 'insert', 'remove', 'header', 'tail', 'index'])
        c['edits'] = [[rng.choice(kinds), rng.getrandbits(40)] for i in range(rng.choice([1, 1, 1, 2, 3, 6]))]
        return c

    def begin(self):
        limit_memory()

    def damage(self, data, spans, refmap, edits, order):
        """-> (bytes, first position from which everything moved, altered mask as list of ranges)"""
        data = bytearray(data)
        order_ch = '<' if order == 'little' else '>'
        recs = sorted(spans.values())
        first = recs[0][0] if recs else len(data)
        moved = len(data)
        ranges = []
        import struct

        def put(pos, b):
            b = b[:max(0, len(data) - pos)]
            data[pos:pos + len(b)] = b
            ranges.append((pos, pos + len(b)))
        for kind, seed in edits:
            r = rng_for('damage', seed)
            if not data:
                break
            s, e = r.choice(recs)
            if kind in ('bit', 'byte', 'word', 'half', 'ff') and r.random() < 0.85:
                lo, hi = s + 8, e
            else:
                lo, hi = 0, len(data)
            pos = r.randrange(lo, max(lo + 1, hi))
            n = len(data)
            words = [0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, len(recs), len(recs) + 1, n, 0xFFFF, 0x10000, 255,
                     r.getrandbits(32), 100000, 50000000]
            if kind == 'bit' and pos < n:
                put(pos, bytes([data[pos] ^ (1 << r.randrange(8))]))
            elif kind == 'byte':
                put(pos, bytes([r.getrandbits(8)]))
            elif kind == 'ff':
                put(pos, b'\xff' * r.randint(1, 8))
            elif kind in ('word', 'ref'):
                v = r.choice(words) if kind == 'word' else r.randint(0, len(recs) + 2)
                put(pos, struct.pack(order_ch + 'I', v))
            elif kind == 'half':
                put(pos, struct.pack(order_ch + 'H', r.choice([0, 1, 0xFFFF, 0x7FFF, 0x8000, r.getrandbits(16)])))
            elif kind in ('field', 'fields'):
                # one value of a record, or of most records: a tag, a type, a flag, a count, a number
                for s, e in ([r.choice(recs)] if kind == 'field' else [x for x in recs if r.random() < 0.7]):
                    cid = bytes(data[s:s + 4])
                    cid = (cid[::-1] if order == 'little' else cid).decode('latin-1')
                    fields = [x for x in ref.record_fields(order, cid, bytes(data[s + 8:e])) if x[1] in (1, 2, 4, 8)] \
                        if cid in ref.CLASSES else []
                    pick = r.random()
                    if pick < 0.4:
                        fields = [x for x in fields if x[1] == 1] or fields
                    elif pick < 0.7:
                        # tags, types, counts
                        fields = [x for x in fields if int.from_bytes(data[s + 8 + x[0]:s + 8 + sum(x)], order) < 256] or fields
                    if fields:
                        at, size = r.choice(fields)
                        at += s + 8
                        old = int.from_bytes(data[at:at + size], order)
                        new = r.choice([old + 1, old - 1, old + 2, old * 2, old ^ 0x80, r.randint(0, 5), r.randint(64, 80), -1,
                                        1 << (8 * size - 1), old ^ (1 << r.randrange(8 * size)), len(recs) + 1 + r.randint(0, 1)])
                        put(at, (new & ((1 << 8 * size) - 1)).to_bytes(size, order))
            elif kind == 'len':
                put(s + 4, struct.pack(order_ch + 'I', r.choice(words + [e - s - 8 + r.choice([-1, 1, 4, -4, 8])]) & 0xFFFFFFFF))
            elif kind == 'class':
                c = r.choice(sorted(ref.CLASSES)).encode('ascii') if r.random() < 0.6 else bytes(r.getrandbits(8) for i in range(4))
                put(s, c if order == 'big' else c[::-1])
            elif kind == 'zero':
                put(pos, b'\0' * r.randint(1, 60))
            elif kind == 'header':
                pos = r.randrange(0, first)
                put(pos, r.choice([bytes([r.getrandbits(8)]), struct.pack(order_ch + 'I', r.choice(words)), b'\0\0', b'\xff\xff']))
            elif kind == 'index':
                # the object count or the root index
                k = 2 + 6 + 4
                k += 2 + 7 + 1 + 2 + 19
                put(k + r.choice([0, 4]), struct.pack(order_ch + 'I', r.choice(words + [len(recs) - 1])))
            elif kind == 'swap':
                a, b = r.choice(recs), r.choice(recs)
                if a[1] - a[0] == b[1] - b[0]:
                    x, y = bytes(data[a[0]:a[1]]), bytes(data[b[0]:b[1]])
                    put(a[0], y)
                    put(b[0], x)
                else:
                    k = min(a[1] - a[0], b[1] - b[0])
                    put(a[0] + 8, bytes(data[b[0] + 8:b[0] + k]))
            elif kind == 'tail':
                k = r.randrange(0, n)
                moved = min(moved, k)
                del data[k:]
            elif kind in ('insert', 'remove', 'dup'):
                moved = min(moved, pos)
                if kind == 'insert':
                    data[pos:pos] = bytes(r.getrandbits(8) for i in range(r.choice([1, 2, 4, 9, 100])))
                elif kind == 'remove':
                    del data[pos:pos + r.choice([1, 2, 4, 9, 100])]
                else:
                    data[pos:pos] = data[pos:pos + r.choice([1, 8, 50])]
        return bytes(data), moved, ranges

    def run(self, case, env):
        fs = new_fs(env, dict(case, short=False))
        with simfs.active(fs):
            model = build_model(case)
            data, spans, refmap = file_bytes(case, model)
            bad, moved, ranges = self.damage(data, spans, refmap, case['edits'], case.get('order', 'little'))
            env.state(bad)
            index = {n: i for i, n in refmap.items()}
            recs = [spans[index[n]] for n in sorted(index)]
            first = recs[0][0]
            whole = bad[:first] == data[:first] and moved >= first
            intact = set()
            located = whole
            for n in sorted(index):
                s, e = spans[index[n]]
                if not (located and s + 8 <= moved and bad[s:s + 8] == data[s:s + 8]):
                    located = False
                    break
                if e <= moved and bad[s:e] == data[s:e]:
                    intact.add(n)
            # past the walk every header has to be there for the file to open
            opens = located and moved >= recs[-1][0] + 8 and model.root in [index[n] for n in intact]
            env.log('damage', len(bad), len(intact), len(index), opens)
            env.count('objects intact', len(intact))
            env.count('objects damaged', len(index) - len(intact))
            fs.put(DIR + '/bad.avb', bad)
            before = peak()
            rng = rng_for('read', case['seed'])
            budget = 30000 + 300 * len(bad)
            try:
                with StepCounter(budget):
                    self.read(case, env, fs, model, bad, refmap, index, intact, opens, rng)
            except MemoryError:
                raise Violation('memory is exhausted', '%d bytes' % len(bad))
            grown = peak() - before
            if grown > (600 << 20):
                raise Violation('memory is exhausted', 'grew by %d MB for %d bytes' % (grown >> 20, len(bad)))
            if handles(fs):
                raise Violation('a handle stays open', '')

    def header_says(self, env, f, bad):
        """a file that opens has a header, and opens as what it says -> [(class, body)] or None"""
        try:
            m, n, first = ref.decode_header(bad)
        except ref.RefUnclear:
            env.count('files opened, header unclear')
            return
        except ref.RefError as e:
            raise Violation('a file without a header opens', str(e)[:200])
        recs = ref.walk_records(bad, first, m.order, n)
        if len(recs) < n:
            raise Violation('a file opens although objects are missing', '%d of %d' % (len(recs), n))
        if f.root_index != m.root or len(f.object_positions) - 1 != n:
            raise Violation('the header reads differently', 'root %d of %d, expected %d of %d' % (
                f.root_index, len(f.object_positions) - 1, m.root, n))
        if f.creator_version.strip(u'\0') != m.creator.strip(u'\0') or adapter.stamp(f.last_save) != m.last_save:
            raise Violation('the header reads differently', '%r %s, expected %r %d' % (
                f.creator_version, f.last_save, m.creator, m.last_save))
        if m.root:
            self.says(env, f, recs, m.root, f.content)
        elif f.content is not None:
            raise Violation('the header reads differently', 'content of a file without root')
        return recs

    def read(self, case, env, fs, model, bad, refmap, index, intact, opens, rng):
        src = DIR + '/bad.avb' if not case['stream'] else io.BytesIO(bad)
        try:
            f = adapter.avb.open(src, use_ext=env.mode == 'ext')
        except MemoryError:
            raise
        except Exception as e:
            env.log('open raised')
            env.count('open raised')
            if opens:
                raise Violation('intact file does not open', 'root and all headers are intact: %s %s at %s' % (
                    type(e).__name__, str(e)[:100], where(e.__traceback__)))
            return
        env.nontrivial = True
        env.count('opened')
        try:
            recs = self.header_says(env, f, bad)
            objs = {}
            order = sorted(index) * 2
            rng.shuffle(order)
            extra = len(f.object_positions) - 1
            refused = set()
            held = []
            holding = rng.random() < 0.5
            for n in order:
                if n > extra:
                    continue
                try:
                    o = f.read_object(n)
                except MemoryError:
                    raise
                except Exception as e:
                    if n in intact:
                        raise Violation('intact object does not read', '%s: %s %s at %s' % (
                            model.objs[index[n]]['_c'], type(e).__name__, str(e)[:100], where(e.__traceback__)))
                    env.count('objects refused')
                    refused.add(n)
                    if holding:
                        held.append(e)      # with all that was half read
                    if objs and rng.random() < 0.3:
                        self.edit_after(env, model, f, objs, rng)
                    continue
                if n in refused:
                    raise Violation('a refused object is exposed', '%s: refused at first, then read' % model.objs[index[n]]['_c'])
                if n not in intact:
                    self.says(env, f, recs, n, o)
                    continue
                if rng.random() < 0.5:
                    objs[n] = o
                self.compare(model, refmap, index, intact, f, n, o)
                env.count('intact objects compared')
            # whatever a damaged file says, walking it ends
            r = rng.random()
            try:
                if r < 0.2:
                    for c in f.chunks():
                        c.read()
                elif r < 0.4:
                    list(f.content.mobs) if hasattr(f.content, 'mobs') else None
                    list(f.content.toplevel()) if hasattr(f.content, 'toplevel') else None
                elif r < 0.6:
                    list(f.iter_class_ids([b'CMPO', b'SEQU', b'ATTR']))
            except MemoryError:
                raise
            except Exception:
                pass
        finally:
            f.close()

    def says(self, env, f, recs, n, o):
        """a damaged record that reads anyway reads as what its bytes say"""
        if recs is None:
            return
        cid, body = recs[n - 1]
        c = adapter.class_id(o)
        if c != cid:
            raise Violation('a damaged object reads as another class', '%s, the record says %r' % (c, cid))
        if body is None:
            raise Violation('a damaged object reads although its record is cut off', cid)
        try:
            d = ref.decode_record(f.ictx.byte_order, cid, body)
        except ref.RefUnclear:
            env.count('damaged objects that read, bytes unclear')
            return
        except ref.RefError as e:
            raise Violation('a damaged object reads although its bytes say nothing', str(e)[:200])
        d.pop('_legacy', None)
        if cid == 'ATTR':
            last = {k: [k, t, v] for k, t, v in d['_a']}        # a name that is stored twice
            d['_a'] = list(last.values())
        got, refs = own_values(o, d)
        out = []

        def pair(a, b, w):
            if bool(a) != bool(b):
                out.append('%s: %s' % (w, 'none' if not b else 'an object'))
            elif a and refs[b] is not BROKEN and (a > len(recs) or adapter.class_id(refs[b]) != recs[a - 1][0]):
                out.append('%s is %s' % (w, adapter.class_id(refs[b])))
        compare_dicts(d, got, out, pair)
        if out:
            raise Violation('a damaged object does not read as what its bytes say', '%s %s' % (cid, out[0][:200]))
        env.count('damaged objects that read compared')

    def edit_after(self, env, model, f, objs, rng):
        """after a refused read the document is tracked as before: an edit is not lost"""
        n = rng.choice(sorted(objs))
        o = objs.pop(n)
        if not hasattr(o, 'name') or adapter.class_id(o) not in ('CMPO', 'SEQU', 'SCLP', 'FILL', 'TCCP', 'ECCP', 'TRKG', 'TMBC'):
            objs[n] = o
            return
        old = o.name
        o.name = 'edited'
        del o
        gc.collect()
        o = f.read_object(n)
        if o.name != 'edited':
            raise Violation('an edit after a refused read is lost', adapter.class_id(o))
        o.name = old
        objs[n] = o
        env.count('edits after a refused read')

    def compare(self, model, refmap, index, intact, f, n, o):
        i = index[n]
        d = model.objs[i]
        if type(o).__name__ != ref.CLASSES[d['_c']][1]:
            raise Violation('intact object reads as another class', type(o).__name__)
        got, refs = own_values(o, d)
        out = []

        def pair(a, b, w):
            if a and refmap[a] not in intact:
                return          # the target is damaged, its record may say anything
            if bool(a) != bool(b):
                out.append('%s: %s' % (w, 'none' if not b else 'an object'))
            elif a:
                x = refs[b]
                if x is BROKEN:
                    out.append('%s cannot be followed' % w)
                elif adapter.class_id(x) != model.objs[a]['_c']:
                    out.append('%s is %s' % (w, adapter.class_id(x)))
        compare_dicts(d, got, out, pair)
        if out:
            raise Violation('intact object reads with wrong values', '%s %s' % (d['_c'], out[0]))


class C03(Prop):
    ID = 'C03'
    level = 'fault_enumeration'
    technique = 'deterministic simulation: a file cut off at every byte, then opened, read, copied and saved'
    note = FS_NOTE
    quick = {'pure': 1750, 'ext': 400}
    rule = ('a run cuts one generated file at every byte (files up to 700 bytes) or at every record boundary and random '
            'bytes, and opens, reads, traverses, copies and saves each; non-trivial when at least one cut file opened')
    states_rule = 'hashes of the cut files'

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, rng.choice([3, 10, 25])))
        c['src'] = 'bytes'
        c['perm'] = rng.random() < 0.85
        c['short'] = False
        c['cuts'] = [rng.random() for i in range(25)]
        c['stream'] = rng.random() < 0.3
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        with simfs.active(fs):
            model = build_model(case)
            data, spans, refmap = file_bytes(case, model)
            index = {n: i for i, n in refmap.items()}
            reach = adapter.reachable(model)
            if len(data) <= 700 and len(case['cuts']) > 20:
                cuts = range(len(data))
                env.count('files cut at every byte')
            else:
                cuts = {int(x * len(data)) for x in case['cuts']}
                if len(case['cuts']) > 20:
                    lo = max(s for s, e in spans.values())
                    for s, e in spans.values():
                        cuts |= {s, s + 4, s + 8, e - 1} if s < lo else set()
                    for k in range(12):
                        cuts.add(lo + 8 + int((len(data) - lo - 8) * k / 12.0))
                    cuts |= {len(data) - 1, len(data) - 2, len(data) - 4}
                cuts = sorted(x for x in cuts if 0 <= x < len(data))
            for cut in cuts:
                env.count('fault:cut')
                self.one(case, env, fs, model, data[:cut], cut, spans, index, refmap, reach)

    def one(self, case, env, fs, model, bad, cut, spans, index, refmap, reach):
        env.state(b'%d:%d' % (case['seed'], cut))
        path = DIR + '/cut.avb'
        fs.put(path, bad)
        rng = rng_for('cut', case['seed'], cut)
        try:
            f = adapter.avb.open(io.BytesIO(bad) if case['stream'] else path, use_ext=env.mode == 'ext')
        except Exception:
            env.log(cut, 'refused')
            return
        env.nontrivial = True
        env.count('cut files that opened')
        try:
            missing = [n for n in sorted(index) if spans[index[n]][1] > cut]
            if index and refmap[model.root] in missing:
                raise Violation('a truncated file is accepted', 'the root record is cut off at byte %d of %d' % (
                    cut, spans[model.root][1]))
            order = sorted(index)
            rng.shuffle(order)
            for n in order:
                s, e = spans[index[n]]
                try:
                    o = f.read_object(n)
                except Exception as ex:
                    if e <= cut:
                        raise Violation('an object that is there does not read', '%s %s' % (model.objs[index[n]]['_c'], ex))
                    continue
                if e > cut:
                    raise Violation('an object that is cut off reads', '%s: %d of %d bytes' % (
                        model.objs[index[n]]['_c'], max(0, cut - s), e - s))
            lost = [index[n] for n in missing if index[n] in reach]
            acts = ['dump', 'save', 'chunks', 'copy', 'class']
            rng.shuffle(acts)
            for a in acts[:3]:
                before = fs.listing()
                try:
                    done = True
                    if a == 'dump':
                        adapter.dump(f, rng)
                    elif a == 'save':
                        f.write(DIR + '/resaved.avb', 'little')
                    elif a == 'chunks':
                        for c in f.chunks():
                            c.read()
                    elif a == 'class':
                        list(f.iter_class_ids([c.encode('ascii') for c in sorted(ref.CLASSES)]))
                    else:
                        g = adapter.avb.file.AVBFile()
                        f.content.copy(g)
                except Exception:
                    done = False
                env.count('%s %s' % (a, 'completed' if done else 'refused'))
                if done and (lost if a in ('dump', 'save', 'copy') else missing):
                    raise Violation('%s of a truncated file completes' % a, 'cut at byte %d' % cut)
                if not done and a == 'save' and fs.listing() != before:
                    raise Violation('a save that failed changed the disk', '')
                fs.names.pop(DIR + '/resaved.avb', None)
            env.log(cut, 'opened', len(missing))
        finally:
            f.close()


class Boom(Exception):
    pass


class C04(Prop):
    ID = 'C04'
    technique = 'deterministic simulation: handle accounting on a simulated disk under open, read and save failures'
    note = FS_NOTE
    quick = {'pure': 9000, 'ext': 2100}
    rule = ('a run performs random opens of good, damaged, cut, missing and foreign files, context blocks left with and '
            'without exceptions, saves, closes and reads with injected faults; collection is off and exceptions are kept '
            'alive, so handles only close when the code closes them; non-trivial when at least one open failed after its '
            'file was opened')

    def generate(self, rng, index, tier):
        c = gen_source(rng, index, size=(1, 12), mobs=(0, 2))
        c['src'] = 'bytes'
        c['ops'] = gen_ops(rng, [('open', 5), ('bad', 4), ('with', 4), ('close', 2), ('use', 3), ('save', 2), ('stream', 3),
                                 ('new', 0.7)], rng.choice([3, 6, 12, 20]))
        return c

    def run(self, case, env):
        fs = new_fs(env, case)
        gc.disable()
        self.keep = []
        try:
            with simfs.active(fs):
                model = build_model(case)
                data, spans, refmap = file_bytes(case, model)
                fs.put(DIR + '/src.avb', data)
                self.open_docs = []
                for name, seed in case['ops']:
                    rng = rng_for('op', seed)
                    env.log(name)
                    env.count('op:' + name)
                    getattr(self, 'do_' + name)(case, env, fs, rng, model, data, spans)
                    have = len(fs.fds)
                    want = len(self.open_docs)
                    if have != want:
                        raise Violation('a handle was not released' if have > want else 'a handle was closed in use',
                                        'after %s: %d open, expected %d' % (name, have, want))
                    for d in self.open_docs:
                        if d.f.f.closed:
                            raise Violation('a handle was closed in use', 'after ' + name)
                for d in self.open_docs:
                    d.check_dump(None, 'document in use differs')
                    d.f.close()
                if fs.fds:
                    raise Violation('a handle was not released', 'after closing everything')
        finally:
            gc.enable()
            self.keep = []
            simfs.ACTIVE[0] = None

    def faults(self, rng):
        if rng.random() < 0.15:
            return [['interrupt', rng.choice([1, 2, 3, 5, 8]), '', False]]
        kind = rng.choice(['read', 'read', 'seek', 'open'])
        return [[kind, rng.choice([1, 1, 2, 3, 5, 8]) if kind != 'open' else 1, 'EIO' if kind != 'read' else rng.choice(['EIO', 'eof']), rng.random() < 0.5]]

    def attempt(self, env, fs, fn):
        try:
            return fn()
        except (Exception, Interrupt) as e:
            self.keep.append(e)         # its frames stay alive
            env.count('opens failed')
            return None

    def doc(self, case, env, fs, f, model):
        d = Doc(env, case, fs, DIR + '/src.avb')
        d.exp = clone_model(model)
        d.f = f
        return d

    def do_open(self, case, env, fs, rng, model, data, spans):
        b = rng.choice([1, 16, 100, 8192])
        if rng.random() < 0.5:
            set_faults(fs, self.faults(rng))
        f = self.attempt(env, fs, lambda: adapter.avb.open(DIR + '/src.avb', buffering=b))
        clear(fs)
        if f is not None:
            self.open_docs.append(self.doc(case, env, fs, f, model))
            if len(self.open_docs) > 5:
                self.open_docs.pop(0).f.close()

    def broken(self, rng, data, spans):
        k = rng.choice(['empty', 'text', 'cut', 'header', 'root', 'flip', 'dir', 'missing', 'order'])
        if k == 'empty':
            return k, b''
        if k == 'text':
            return k, b'this is not a bin' * 5
        if k == 'cut':
            return k, data[:rng.randrange(len(data))]
        if k == 'header':
            first = min(s for s, e in spans.values())
            p = rng.randrange(first)
            return k, data[:p] + bytes([data[p] ^ 0x55]) + data[p + 1:]
        if k == 'root':
            s, e = max(spans.values())
            p = rng.randrange(s, e)
            return k, data[:p] + b'\xee' * rng.randint(1, 9) + data[p + 9:]
        if k == 'flip':
            p = rng.randrange(len(data))
            return k, data[:p] + bytes([data[p] ^ (1 << rng.randrange(8))]) + data[p + 1:]
        if k == 'order':
            return k, data[1::-1] + data[2:]
        return k, None

    def do_bad(self, case, env, fs, rng, model, data, spans):
        k, b = self.broken(rng, data, spans)
        path = DIR + '/bad.avb'
        fs.names.pop(path, None)
        if b is not None:
            fs.put(path, b)
        elif k == 'dir':
            path = DIR
        n = len(fs.trace)
        f = self.attempt(env, fs, lambda: adapter.avb.open(path))
        if f is None:
            env.nontrivial = env.nontrivial or ('open', None) in fs.trace[n:]
        else:
            f.close()

    def do_with(self, case, env, fs, rng, model, data, spans):
        how = rng.choice(['normal', 'raise', 'return', 'nested', 'fault', 'stop', 'closed'])
        n = len(fs.fds)

        def body():
            with adapter.avb.open(DIR + '/src.avb') as f:
                if len(fs.fds) != n + 1:
                    raise Violation('a handle was closed in use', 'inside its context')
                d = self.doc(case, env, fs, f, model)
                d.check_object(d.pick(rng), rng)
                if how == 'raise':
                    raise Boom('body')
                if how == 'stop':
                    raise Interrupt()
                if how == 'closed':
                    f.close()
                if how == 'return':
                    return 1
                if how == 'fault':
                    set_faults(fs, self.faults(rng))
                    d.check_dump(rng)
                if how == 'nested':
                    with adapter.avb.open(DIR + '/src.avb') as g:
                        g.content
                        raise Boom('inner')
        try:
            body()
            if how in ('raise', 'stop', 'nested'):
                raise Violation('a context swallows exceptions', how)
        except Violation:
            raise
        except (Boom, Interrupt) as e:
            self.keep.append(e)
        except Exception as e:
            self.keep.append(e)
            if how != 'fault':
                raise unexpected('context block', e)
        clear(fs)

    def do_close(self, case, env, fs, rng, model, data, spans):
        if self.open_docs:
            d = self.open_docs.pop(rng.randrange(len(self.open_docs)))
            d.f.close()
            if rng.random() < 0.4:
                d.f.close()
            if not d.f.f.closed:
                raise Violation('a handle was not released', 'close() returned')

    def do_use(self, case, env, fs, rng, model, data, spans):
        if self.open_docs:
            d = rng.choice(self.open_docs)
            if rng.random() < 0.5:
                set_faults(fs, self.faults(rng))
                self.attempt(env, fs, lambda: adapter.dump(d.f, rng))
                clear(fs)
            d.check_object(d.pick(rng), rng)

    def do_save(self, case, env, fs, rng, model, data, spans):
        if not self.open_docs:
            return
        d = rng.choice(self.open_docs)
        path = rng.choice([DIR + '/out.avb', DIR + '/src.avb', DIR, '/simfs/no/such/dir.avb'])
        undo = bad_value(d, rng) if rng.random() < 0.2 else None
        if rng.random() < 0.5:
            set_faults(fs, [gen_fault_plain(rng)])
        try:
            d.f.write(path, rng.choice(['little', 'big', 'little', 'middle']))
        except (Exception, Interrupt) as e:
            self.keep.append(e)
            env.count('saves failed')
        clear(fs)
        if undo:
            undo()

    def do_stream(self, case, env, fs, rng, model, data, spans):
        """a stream of the caller's: closed by close(), not by a failing open"""
        st = FaultyStream(data, env.counts)
        if rng.random() < 0.4:
            st.b = io.BytesIO(self.broken(rng, data, spans)[1] or b'')
        elif rng.random() < 0.5:
            st.set([['read', rng.randint(1, 12), rng.choice(['EIO', 'eof']), True]])
        f = self.attempt(env, fs, lambda: adapter.avb.open(st))
        if f is None:
            if st.closed_by:
                raise Violation('a failing open closed the caller\'s stream', '')
            return
        if st.closed_by:
            raise Violation('a stream was closed in use', '')
        how = rng.choice(['close', 'with', 'save'])
        if how == 'save':
            self.attempt(env, fs, lambda: f.write(DIR + '/out.avb'))
            if st.closed_by:
                raise Violation('a stream was closed in use', 'by a save')
            f.close()
        elif how == 'with':
            with f:
                pass
        else:
            f.close()
        if not st.closed_by:
            raise Violation('closing the document left the caller\'s stream open', how)

    def do_new(self, case, env, fs, rng, model, data, spans):
        with adapter.avb.open() as f:
            f.write(DIR + '/new.avb')
        f.close()


def gen_fault_plain(rng):
    if rng.random() < 0.15:
        return ['interrupt', rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]), '', False]
    kind = rng.choice(['write', 'write', 'fsync', 'close', 'rename', 'open', 'read', 'seek', 'chmod', 'unlink'])
    return [kind, rng.choice([1, 1, 2, 3]), rng.choice(WHATS[kind]), rng.random() < 0.3]
