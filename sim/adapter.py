"""Between the code under test and the reference model.

dump()   walks a live document through its public attributes into a ref.Model
Builder side: create() builds live objects from a reference model through the
public factory, locate() navigates to an object along a model path.
"""
import calendar
import datetime
import gc
import io
import random
import uuid as uuid_mod
import zlib

from . import ref

avb = None          # set by bind()
REGISTRY = {}       # class id -> class name
MISSING = object()


def bind():
    """import the code under test (after the seams are installed)"""
    global avb
    if avb is None:
        import avb as _avb
        import avb.core, avb.utils, avb.file, avb.mobid, avb.ioctx
        avb = _avb
    return avb


def hidden_output():
    """the library prints diagnostics before it re-raises; keep them out of ours"""
    import contextlib
    return contextlib.redirect_stdout(io.StringIO())


MEDIA_KINDS = {0: None, 1: 'picture', 2: 'sound', 3: 'timecode', 4: 'edgecode', 5: 'attribute', 6: 'effectdata',
               7: 'DescriptiveMetadata', 16: 'DataEssenceTrack'}
USAGES = {0: None, 1: 'precompute', 2: 'subclip', 3: 'effect', 4: 'group', 5: 'groupoofter', 6: 'motion',
          7: 'mastermob', 9: 'precompute_file'}
MOB_TYPES = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}
VALUE_TYPES = {1: 'int', 2: 'double', 4: 'reference'}
INTERPS = {2: 'ConstantInterp', 3: 'LinearInterp', 5: 'BezierInterpolator', 6: 'CubicInterpolator'}
POINT_NAMES = {5: 'PP_IN_TANGENT_POS_U', 6: 'PP_IN_TANGENT_VAL_U', 7: 'PP_OUT_TANGENT_POS_U',
               8: 'PP_OUT_TANGENT_VAL_U', 9: 'PP_TANGENT_MODE_U', 14: 'PP_BASE_FRAME_U'}


def media_kind(v):
    return MEDIA_KINDS.get(v, 'unknown%d' % v)


def derived(d, obj):
    """what the names of stored codes have to be -> differences"""
    want = []
    if 'media_kind_id' in d:
        want.append((obj, 'media_kind', media_kind(d['media_kind_id'])))
    if d['_c'] == 'CMPO':
        want.append((obj, 'usage', USAGES.get(d['usage_code'], 'unknown')))
        if d['mob_type_id'] in MOB_TYPES:
            want.append((obj, 'mob_type', MOB_TYPES[d['mob_type_id']]))
    if d['_c'] in ('PRCL', 'PRIT'):
        want.append((obj, 'value_type_name', VALUE_TYPES.get(d['value_type'], 'unknown')))
    if d['_c'] == 'PRCL':
        want.append((obj, 'interp', INTERPS.get(d['interp_kind'], 'unknown')))
        for c, cp in zip(d['control_points'], obj.control_points):
            for x, p in zip(c['pp'], cp.pp):
                want.append((p, 'name', POINT_NAMES.get(x['code'])))
                want.append((p, 'type_name', VALUE_TYPES.get(x['type'], 'unknown')))
    return ['%s %s, expected %s' % (k, ref.short(getattr(o, k)), ref.short(w)) for o, k, w in want
            if getattr(o, k) != w or type(getattr(o, k)) is not type(w)]


def set_field(obj, k, v, rng):
    """assign a field, by the name of its code now and then"""
    if k == 'media_kind_id' and v in MEDIA_KINDS and rng.random() < 0.6:
        obj.media_kind = MEDIA_KINDS[v]
    else:
        setattr(obj, k, v)


def stamp(dt):
    return calendar.timegm(dt.timetuple())


def from_stamp(t):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)


FROM_STAMP = [from_stamp]       # every run is in UTC unless its property says otherwise


def class_id(obj):
    c = getattr(type(obj), 'class_id', None)
    return c.decode('latin-1') if c else None


class Dumper(object):
    """live objects -> reference form; holds what it visited alive"""

    def __init__(self, time_of=stamp, rng=None, ids=None):
        self.model = ref.Model()
        self.ids = {}          # id(obj) -> model id
        self.objs = {}         # model id -> live object
        self.todo = []
        self.time_of = time_of
        self.rng = rng
        for i, o in (ids or {}).items():
            self.ids[id(o)] = i
            self.objs[i] = o
        self.next = max(self.objs or [0]) + 1
        self.primed = set(self.objs)

    def refid(self, obj):
        if obj is None:
            return 0
        i = self.ids.get(id(obj))
        if i is None:
            i = self.next
            self.next += 1
            self.ids[id(obj)] = i
            self.objs[i] = obj
            self.todo.append(i)
        return i

    def value(self, v):
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, uuid_mod.UUID):
            return v.bytes_le
        if isinstance(v, avb.mobid.MobID):
            return bytes(v.bytes_le)
        if isinstance(v, datetime.datetime):
            return self.time_of(v)
        if getattr(type(v), 'class_id', None):
            return self.refid(v)
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if isinstance(v, tuple):
            return [self.value(x) for x in v]
        if hasattr(type(v), 'propertydefs'):
            return self.fields(v)
        if isinstance(v, dict):
            return {k: self.value(x) for k, x in v.items()}
        return ('?', type(v).__name__, repr(v)[:80])

    def fields(self, obj):
        d = {}
        for pdef in type(obj).propertydefs:
            v = getattr(obj, pdef.name, MISSING)
            if v is not MISSING:
                x = self.value(v)
                if pdef.type == 'ref_list' and isinstance(x, list):
                    x = [t or 0 for t in x]
                d[pdef.name] = x
        return d

    def one(self, obj):
        c = class_id(obj)
        d = {'_c': c}
        if c == 'ATTR':
            items = []
            for k, v in obj.items():
                if isinstance(v, bool) or isinstance(v, int):
                    items.append([k, 1, int(v)])
                elif isinstance(v, str):
                    items.append([k, 2, v])
                elif isinstance(v, (bytes, bytearray)):
                    items.append([k, 4, bytes(v)])
                else:
                    items.append([k, 3, self.refid(v)])
            d['_a'] = items
        elif c in ('PRLS', 'TMCS'):
            d['_l'] = [self.refid(x) for x in obj]
        else:
            d.update(self.fields(obj))
        return d

    def run(self, roots):
        for r in roots:
            self.refid(r)
        if self.primed:
            self.todo.extend(i for i in sorted(self.primed) if i not in self.todo)
        while self.todo:
            if self.rng is not None and len(self.todo) > 1:
                k = self.rng.randrange(len(self.todo))
                self.todo[k], self.todo[-1] = self.todo[-1], self.todo[k]
            i = self.todo.pop()
            if i not in self.model.objs:
                self.model.objs[i] = self.one(self.objs[i])
        return self.model


def dump(f, rng=None, time_of=stamp, root=None):
    dm = Dumper(time_of, rng)
    r = f.content if root is None else root
    dm.run([r])
    dm.model.root = dm.ids[id(r)]
    dm.model.order = None
    dm.model.live = dm.objs
    return dm.model


def exact(f, objs):
    """the document as a program sees it, to the microsecond, bit and instance; objs are its objects, kept alive"""
    out = {}
    for k in ('last_save', 'creator_version'):
        out['document', k] = exact_value(getattr(f, k), 0)
    out['document', 'content'] = id(f.content)
    for o in objs:
        if isinstance(o, list):
            out[id(o), '[]'] = [exact_value(v, 0) for v in o]
            continue
        if isinstance(o, dict):
            out[id(o), '{}'] = [(k, exact_value(v, 0)) for k, v in o.items()]
            continue
        for pdef in type(o).propertydefs:
            v = getattr(o, pdef.name, MISSING)
            if v is not MISSING:
                out[id(o), type(o).__name__ + '.' + pdef.name] = exact_value(v, 0)
    return out


def exact_value(v, depth):
    if v is None or isinstance(v, (bool, int, str)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ('float', v.hex())
    if isinstance(v, datetime.datetime):
        return ('datetime', v.isoformat(), getattr(v, 'fold', 0))
    if isinstance(v, (bytes, bytearray)):
        return (type(v).__name__, bytes(v), id(v) if isinstance(v, bytearray) else 0)
    if isinstance(v, avb.mobid.MobID):
        return ('MobID', bytes(v.bytes_le), id(v))
    if isinstance(v, (list, tuple)) and getattr(v, 'class_id', None) is None:
        return (type(v).__name__, id(v), [exact_value(x, depth + 1) for x in v])
    if isinstance(v, dict) and getattr(v, 'class_id', None) is None:
        return (type(v).__name__, id(v), [(k, exact_value(x, depth + 1)) for k, x in v.items()])
    if hasattr(v, 'propertydefs'):
        if getattr(v, 'class_id', None) is None and depth < 8:
            return (type(v).__name__, id(v), [(pd.name, exact_value(getattr(v, pd.name), depth + 1))
                                              for pd in type(v).propertydefs if hasattr(v, pd.name)])
        return (type(v).__name__, id(v))
    return (type(v).__name__, str(v))


# --------------------------------------------------------------------------
# reference value -> live value

def live_value(f, cid, key, val, objs, kind_of=None):
    """plain field value from its reference form"""
    return val


def to_uuid(b): return uuid_mod.UUID(bytes_le=bytes(b))
def to_mobid(b): return avb.mobid.MobID(bytes_le=bytearray(b))


HELPERS = {('tracks',): 'Track', ('bands',): 'EqualizerBand', ('plugins',): 'ASPIPlugin', ('chunks',): 'ASPIPluginChunk',
           ('items',): 'BinItem', ('sifted_settings',): 'SiftItem', ('parameters',): 'EffectParam'}


def helper_name(cid, key, parent_key=None):
    if key == 'control_points':
        return 'ParamControlPoint' if cid == 'PRCL' else 'ControlPoint'
    if key == 'pp':
        return 'ParamControlPointProperty' if cid == 'PRCL' else 'ControlPointProperty'
    return {'tracks': 'Track', 'bands': 'EqualizerBand', 'plugins': 'ASPIPlugin', 'chunks': 'ASPIPluginChunk',
            'items': 'BinItem', 'sifted_settings': 'SiftItem', 'parameters': 'EffectParam'}.get(key)


UUID_FIELDS = {'uuid', 'transfer_characteristic', 'color_primaries', 'coding_equations', 'essence_compression'}
DATE_FIELDS = {'last_modified', 'creation_time'}
BYTES_AS_BYTES = {'compress_method'}
REFLISTS = {'SEQU': 'components', 'MULD': 'descriptors', 'TKDS': 'tracker_data', 'TKPS': 'params', 'TKDA': 'clips'}


def is_ref(d, item, key):
    return key in ref.REF_FIELDS and (key != 'value' or ref.ref_slot(item, 'value', d))


def to_live(f, d, key, val, objs, item=None):
    """reference form of field `key` -> value to assign on the live object"""
    cid = d['_c']
    item = d if item is None else item
    if is_ref(d, item, key):
        if isinstance(val, list):
            return [objs[i] if i else None for i in val]
        return objs[val] if val else None
    if key in UUID_FIELDS:
        return to_uuid(val)
    if key == 'mob_id':
        return to_mobid(val)
    if key in DATE_FIELDS:
        return FROM_STAMP[0](val)
    if isinstance(val, bytes):
        return bytes(val) if key in BYTES_AS_BYTES else bytearray(val)
    if isinstance(val, list):
        h = helper_name(cid, key)
        if h:
            return [make_helper(f, d, key, it, objs) for it in val]
        if val and isinstance(val[0], dict):
            return [{k: to_live(f, d, k, v, objs, it) for k, v in it.items()} for it in val]
        return [list(x) if isinstance(x, list) else x for x in val]
    return val


def new_live(f, name):
    """an instance with default arguments (a few constructors want one)"""
    make = getattr(f.create, name)
    if name == 'ASPIPlugin':
        return make(f)
    return make()


def made_from(f, d, objs):
    """a live object with the content of a reference dict, some of it given to the constructor"""
    name = ref.CLASSES[d['_c']][1]
    keys = [k for k in d if not k.startswith('_')]
    how = zlib.crc32(repr((name, d.get('edit_rate'), d.get('length'), d.get('name'))).encode('utf-8')) % 3
    given = ()
    if how and 'edit_rate' in d and d.get('media_kind_id') in MEDIA_KINDS and type(d['edit_rate']) is float:
        if d['_c'] == 'CMPO':
            if d.get('mob_type_id') in MOB_TYPES and isinstance(d.get('name'), str):
                given = ('name', 'mob_type_id')
                if how == 2:
                    o = f.create.Composition(d['name'], MOB_TYPES[d['mob_type_id']])
                else:
                    o = f.create.Composition(d['name'], mob_type=MOB_TYPES[d['mob_type_id']])
        else:
            given = ('edit_rate', 'media_kind_id')
            make = getattr(f.create, name)
            if how == 2:
                o = make(d['edit_rate'], MEDIA_KINDS[d['media_kind_id']])
            else:
                o = make(media_kind=MEDIA_KINDS[d['media_kind_id']], edit_rate=d['edit_rate'])
    if not given:
        o = new_live(f, name)
    if d['_c'] in ('ATTR', 'PRLS', 'TMCS'):
        assign(f, o, d, objs)
    else:
        assign(f, o, d, objs, [k for k in keys if k not in given] or None)
    return o


def make_helper(f, d, key, it, objs):
    h = new_live(f, helper_name(d['_c'], key))
    for k, v in it.items():
        if not k.startswith('_'):
            setattr(h, k, to_live(f, d, k, v, objs, it))
    return h


def assign(f, obj, d, objs, keys=None):
    """set the fields of one live object from its reference dict"""
    cid = d['_c']
    if cid == 'ATTR':
        obj.clear()
        for k, t, v in d['_a']:
            obj[k] = bytearray(v) if t == 4 else (objs[v] if v else None) if t == 3 else v
        return
    if cid in ('PRLS', 'TMCS'):
        del obj[:]
        for i in d['_l']:
            obj.append(objs[i] if i else None)
        return
    for k in (keys or [k for k in d if not k.startswith('_')]):
        setattr(obj, k, to_live(f, d, k, d[k], objs))


def create_objects(f, model, ids, objs):
    """build live objects for the model ids (children before parents)"""
    for i in ids:
        objs[i] = made_from(f, model.objs[i], objs)


def create_document(model):
    """a new in-memory document equal to the model; returns (file, objs, expected)

    expected = the model plus whatever defaults the constructors filled in."""
    f = avb.file.AVBFile()
    objs = {}
    ids = [i for i in sorted(model.objs) if i != model.root]
    create_objects(f, model, ids, objs)
    root = model.objs[model.root]
    if root['_c'] == 'BINF':
        f.content = f.create.BinFirst()
    objs[model.root] = f.content
    assign(f, f.content, root, objs)
    exp = with_defaults(f, model, objs)
    return f, objs, exp


def with_defaults(f, model, objs, ids=None):
    """model extended by fields that only exist as constructor defaults"""
    dm = Dumper(ids=objs)
    dm.primed = set(ids) if ids is not None else set(objs)
    got = dm.run([])
    for i in sorted(got.objs):
        if i not in model.objs:
            model.objs[i] = got.objs[i]
        elif ids is None or i in ids:
            merge_defaults(model.objs[i], got.objs[i])
    for i, o in dm.objs.items():
        objs[i] = o
    return model


def merge_defaults(d, got):
    for k, v in got.items():
        if k not in d:
            d[k] = v
        elif isinstance(v, list) and isinstance(d[k], list) and len(v) == len(d[k]):
            for a, b in zip(d[k], v):
                if isinstance(a, dict) and isinstance(b, dict):
                    merge_defaults(a, b)


# --------------------------------------------------------------------------
# navigation

def paths(model):
    """model id -> list of steps from the root (breadth first)"""
    out = {model.root: []}
    queue = [model.root]
    for i in queue:
        d = model.objs[i]
        for step, t in edges(d):
            if t and t not in out:
                out[t] = out[i] + [step]
                queue.append(t)
    return out


def edges(d):
    """(step, target id) for every reference slot; a step is a key path"""
    if d['_c'] == 'ATTR':
        return [((('item', k),), v) for k, t, v in d['_a'] if t == 3]
    if d['_c'] in ('PRLS', 'TMCS'):
        return [((('idx', n),), v) for n, v in enumerate(d['_l'])]
    out = []

    def walk(x, pre):
        for k in x:
            if k.startswith('_'):
                continue
            v = x[k]
            if is_ref(d, x, k):
                if isinstance(v, list):
                    out.extend((pre + (('attr', k), ('idx', n)), t) for n, t in enumerate(v))
                else:
                    out.append((pre + (('attr', k),), v))
            elif isinstance(v, list):
                for n, it in enumerate(v):
                    if isinstance(it, dict):
                        walk(it, pre + (('attr', k), ('idx', n)))
    walk(d, ())
    return out


def follow(obj, steps):
    for step in steps:
        for kind, k in step:
            if kind == 'attr':
                obj = getattr(obj, k)
            elif kind == 'idx':
                obj = obj[k]
            else:
                obj = obj[k]
    return obj


def locate(f, pths, i):
    return follow(f.content, pths[i])


def reaches(model, src, dst):
    """does src reach dst by references?"""
    seen = set()
    todo = [src]
    while todo:
        i = todo.pop()
        if i == dst:
            return True
        if i in seen or not i:
            continue
        seen.add(i)
        todo.extend(t for t in ref.ref_targets(model.objs[i]) if t)
    return False


def reachable(model):
    seen = set()
    todo = [model.root]
    while todo:
        i = todo.pop()
        if not i or i in seen:
            continue
        seen.add(i)
        todo.extend(ref.ref_targets(model.objs[i]))
    return seen
