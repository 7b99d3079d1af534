"""Independent reference model of the AVB container and of every object class.

One description per class, written as a visitor function, serves as
generator (Gen), encoder (Enc) and decoder (Dec).  Nothing here imports the
code under test.

An object is a dict {'_c': class id string, field: value}.  References are
ints (0 = none) into Model.objs.  Values are plain JSON-able Python data:
  int, float, bool, str, None, [..], {..}; bytes-like values are 'hex:...'
  strings wrapped in B(...) -> kept as python bytes here.
"""
import struct

FLOATS = [24.0, 25.0, 30.0, 23.976, 29.97, 59.94, 60.0, 48000.0, 44100.0, 0.5,
          12.5, 119.88, 0.0, 14.985, 47.952, 100.0, -25.0, 1.0, 1000000.0]

MACROMAN = [bytes([i]).decode('mac_roman') for i in range(0x20, 0x100) if i != 0x7f]
# texts that come up again and again, in fields of either encoding
COMMON = [u'\u00e9', u'caf\u00e9', u'A01', u'V1', u'\u00fcber.mov', u'A01', u'x', u'_NAME', u'caf\u00e9 \u00ab1\u00bb']
U8CHARS = [u'a', u'Z', u'0', u' ', u'\u00e9', u'\u4e2d', u'\u6587', u'/', u'\U0001f3ac', u'.', u'\u0416']

TAG_BOOL, TAG_BYTES, TAG_U8, TAG_S16, TAG_S32, TAG_U32 = 66, 65, 68, 69, 71, 72
TAG_DBL, TAG_STR, TAG_64, TAG_UUID, TAG_U16 = 75, 76, 77, 80, 70


class RefError(Exception):
    """the reference decoder rejects these bytes"""


INT_RANGES = {
    'u8': (0, 255), 's8': (-128, 127), 'u16': (0, 0xffff), 's16': (-0x8000, 0x7fff),
    'u32': (0, 0xffffffff), 's32': (-0x80000000, 0x7fffffff),
    'u64': (0, (1 << 64) - 1), 's64': (-(1 << 63), (1 << 63) - 1),
}
FMT = {'u8': 'B', 's8': 'b', 'u16': 'H', 's16': 'h', 'u32': 'I', 's32': 'i',
       'u64': 'Q', 's64': 'q'}

# (class id, field) -> kind, filled in by Gen; used by the edit workloads
KINDS = {}


def exp10_exact(value):
    """the shortest decimal mantissa/exponent that stands for a float, or None when none does"""
    for i in range(31):
        m = int(round(value * 10.0 ** i))
        if abs(m) > 0x7fffffff:
            return None
        if abs(float(m) * 10.0 ** -i - value) <= abs(value) * 1e-14:
            return m, -i
    return None


def exp10_encode(value, spell=0):
    """decimal mantissa/exponent of a float, with six decimals when it has no exact one"""
    x = exp10_exact(value)
    if x is None:
        return int(round(value * 1e6)), -6
    m, e = x
    if not spell and (m, e) == (5994, -2):     # Avid spells 59.94 as 59940e-3
        return 59940, -3
    # other spellings of the same number
    for k in range(spell):
        if m and abs(m) * 10 <= 0x7fffffff:
            m, e = m * 10, e - 1
    if spell < 0:
        while m and m % 10 == 0 and e < 3:
            m, e = m // 10, e + 1
    return m, e


class RefUnclear(RefError):
    """bytes no writer produces, which a reader may nevertheless pass over"""


class Base(object):
    is_gen = is_enc = is_dec = False
    cls = ''
    path = ''

    # ---- typed (tag-prefixed) variants used inside extension records
    def t_s32(self, d, k): self.mark(TAG_S32); self.num(d, k, 's32')
    def t_u32(self, d, k): self.mark(TAG_U32); self.num(d, k, 'u32')
    def t_s16(self, d, k): self.mark(TAG_S16); self.num(d, k, 's16')
    def t_u8(self, d, k): self.mark(TAG_U8); self.num(d, k, 'u8')
    def t_u64(self, d, k): self.mark(TAG_64); self.num(d, k, 'u64')
    def t_s64(self, d, k): self.mark(TAG_64); self.num(d, k, 's64')
    def t_bool(self, d, k): self.mark(TAG_BOOL); self.boolean(d, k)
    def t_ref(self, d, k, hint='*'): self.mark(TAG_U32); self.ref(d, k, hint)
    def t_double(self, d, k): self.mark(TAG_DBL); self.double(d, k)
    def t_str(self, d, k): self.mark(TAG_STR); self.string(d, k)
    def t_str8(self, d, k): self.mark(TAG_STR); self.string8(d, k)
    def t_uuid(self, d, k): self.mark(TAG_UUID); self.uuid(d, k)

    def s8(self, d, k, **kw): self.num(d, k, 's8', **kw)
    def u8(self, d, k, **kw): self.num(d, k, 'u8', **kw)
    def s16(self, d, k, **kw): self.num(d, k, 's16', **kw)
    def u16(self, d, k, **kw): self.num(d, k, 'u16', **kw)
    def s32(self, d, k, **kw): self.num(d, k, 's32', **kw)
    def u32(self, d, k, **kw): self.num(d, k, 'u32', **kw)
    def s64(self, d, k, **kw): self.num(d, k, 's64', **kw)
    def u64(self, d, k, **kw): self.num(d, k, 'u64', **kw)

    def kind(self, k, kind):
        pass


class Enc(Base):
    is_enc = True

    def __init__(self, order, refmap=None, spell=None):
        self.order = order
        self.spell = spell
        self.p = '<' if order == 'little' else '>'
        self.out = bytearray()
        self.refmap = refmap

    def raw(self, b, known=False): self.out += b
    def pk(self, f, v): self.out += struct.pack(self.p + f, v)
    def mark(self, b): self.out.append(b)
    def const(self, kind, v): self.pk(FMT[kind], v)

    def num(self, d, k, kind, **kw): self.pk(FMT[kind], d[k])
    def boolean(self, d, k): self.out.append(1 if d[k] else 0)
    def double(self, d, k): self.out += struct.pack('<d', d[k])

    def exp10(self, d, k):
        m, e = exp10_encode(d[k], self.spell.choice([0, 0, 1, 2, 5, 9, -1]) if self.spell else 0)
        self.pk('i', m)
        self.pk('h', e)

    def put_str(self, s, enc='mac_roman', null=False):
        if not s:
            self.pk('H', 0xffff if null else 0)
            return
        b = s.encode(enc)
        if enc == 'utf-8':
            b = b'\0\0' + b
        self.pk('H', len(b))
        self.out += b

    def string(self, d, k, null=False, nonempty=False): self.put_str(d[k], null=null)
    def string8(self, d, k): self.put_str(d[k], 'utf-8')
    def fourcc(self, d, k): self.out += d[k][::-1] if self.order == 'little' else d[k]
    def fixed(self, d, k, n): assert len(d[k]) == n; self.out += d[k]

    def blob(self, d, k, ck, **kw):
        self.const(ck, len(d[k]))
        self.out += d[k]

    def refid(self, v):
        self.pk('I', self.refmap[v] if (self.refmap is not None and v) else v)

    def ref(self, d, k, hint='*'): self.refid(d[k])

    def reflist(self, d, k, ck, hint='*', **kw):
        self.const(ck, len(d[k]))
        for r in d[k]:
            self.refid(r)

    def uuid(self, d, k):
        b = d[k]       # stored canonical: bytes_le form
        self.out += b if self.order == 'little' else le_to_be(b)

    def mobid(self, d, k): self.put_mobid(d[k])

    def put_mobid(self, b):
        self.mark(TAG_BYTES); self.pk('i', 12); self.out += b[:12]
        for i in range(12, 16):
            self.mark(TAG_U8); self.out.append(b[i])
        m = b[16:]
        d1, d2, d3 = struct.unpack('<IHH', m[:8])
        self.mark(TAG_U32); self.pk('I', d1)
        self.mark(TAG_U16); self.pk('H', d2)
        self.mark(TAG_U16); self.pk('H', d3)
        self.mark(TAG_BYTES); self.pk('i', 8); self.out += m[8:]

    def mob_legacy(self, d, tagged=False):
        if 'mob_id' in d:
            d1, d2, d3 = struct.unpack('<IHH', d['mob_id'][16:24])
        else:
            d1, d2, d3 = d.get('_legacy', (0, 0, 0))
        hi = d2 + (d3 << 16)
        for v in (d1, hi):
            if tagged:
                self.mark(TAG_S32)
            self.pk('I', v)

    def date(self, d, k): self.pk('I', d[k])

    def ints(self, d, k, kind, n):
        assert len(d[k]) == n
        for v in d[k]:
            self.pk(FMT[kind], v)

    def intlist(self, d, k, ck, kind, scale=1, **kw):
        self.const(ck, len(d[k]) * scale)
        for v in d[k]:
            self.pk(FMT[kind], v)

    def items(self, d, k, ck, fn, **kw):
        if ck:
            self.const(ck, len(d[k]))
        for it in d[k]:
            fn(it)

    def exts(self, d, specs):
        for tag, keys, fn in specs:
            if keys[0] in d:
                self.mark(1)
                self.mark(tag)
                fn()

    def choice(self, d, k, kind, values): self.pk(FMT[kind], d[k])


def le_to_be(b):
    d = struct.unpack('<IHH', b[:8])
    return struct.pack('>IHH', *d) + b[8:]


class Dec(Base):
    is_dec = True

    def __init__(self, order, data, cls=''):
        self.order = order
        self.p = '<' if order == 'little' else '>'
        self.data = bytes(data)
        self.pos = 0
        self.cls = cls

    def take(self, n):
        if n < 0 or self.pos + n > len(self.data):
            raise RefError('%s: record too short at %d (+%d)' % (self.cls, self.pos, n))
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def raw(self, b, known=False):
        if self.take(len(b)) != b:
            if known:
                raise RefError('%s: no %s' % (self.cls, b.decode()))
            raise RefUnclear('%s: constant bytes differ at %d' % (self.cls, self.pos))

    def up(self, f):
        return struct.unpack(self.p + f, self.take(struct.calcsize('<' + f)))[0]

    def mark(self, b):
        got = self.take(1)[0]
        if got != b:
            raise RefError('%s: tag %d where %d expected at %d' % (self.cls, got, b, self.pos - 1))

    def const(self, kind, v):
        got = self.up(FMT[kind])
        if got != v:
            raise RefUnclear('%s: constant %r where %r expected' % (self.cls, got, v))

    def num(self, d, k, kind, **kw): d[k] = self.up(FMT[kind])

    def boolean(self, d, k):
        v = self.take(1)[0]
        if v not in (0, 1):
            raise RefUnclear('%s.%s: boolean byte %d' % (self.cls, k, v))
        d[k] = bool(v)

    def double(self, d, k): d[k] = struct.unpack('<d', self.take(8))[0]

    def exp10(self, d, k):
        m = self.up('i')
        e = self.up('h')
        if abs(e) > 200:
            raise RefUnclear('%s.%s: exponent %d' % (self.cls, k, e))
        d[k] = float(m) * 10.0 ** e

    def get_str(self, enc='mac_roman', null=False):
        n = self.up('H')
        if n == 0xffff:
            return None if null else u''
        b = self.take(n)
        if enc == 'utf-8' and n and b[:2] != b'\0\0':
            raise RefUnclear('utf8 string without leading nulls')
        s = b.strip(b'\0').decode(enc)
        if null and not s:
            return None
        return s

    def string(self, d, k, null=False, nonempty=False): d[k] = self.get_str(null=null)
    def string8(self, d, k): d[k] = self.get_str('utf-8')

    def fourcc(self, d, k):
        b = self.take(4)
        d[k] = b[::-1] if self.order == 'little' else b

    def fixed(self, d, k, n): d[k] = self.take(n)
    def blob(self, d, k, ck, **kw): d[k] = self.take(self.up(FMT[ck]))
    def ref(self, d, k, hint='*'): d[k] = self.up('I')

    def reflist(self, d, k, ck, hint='*', **kw):
        n = self.up(FMT[ck])
        if n < 0 or n * 4 > len(self.data):
            raise RefUnclear('bad count')
        d[k] = [self.up('I') for i in range(n)]

    def uuid(self, d, k):
        b = self.take(16)
        if self.order != 'little':
            v = struct.unpack('>IHH', b[:8])
            b = struct.pack('<IHH', *v) + b[8:]
        d[k] = b

    def mobid(self, d, k):
        self.mark(TAG_BYTES)
        if self.up('i') != 12:
            raise RefError('mob id label length')
        b = self.take(12)
        for i in range(4):
            self.mark(TAG_U8)
            b += self.take(1)
        self.mark(TAG_U32); d1 = self.up('I')
        self.mark(TAG_U16); d2 = self.up('H')
        self.mark(TAG_U16); d3 = self.up('H')
        self.mark(TAG_BYTES)
        if self.up('i') != 8:
            raise RefError('mob id data4 length')
        d[k] = b + struct.pack('<IHH', d1, d2, d3) + self.take(8)

    def mob_legacy(self, d, tagged=False):
        v = []
        for i in range(2):
            if tagged:
                self.mark(TAG_S32)
            v.append(self.up('I'))
        d['_legacy'] = v

    def date(self, d, k): d[k] = self.up('I')
    def ints(self, d, k, kind, n): d[k] = [self.up(FMT[kind]) for i in range(n)]

    def intlist(self, d, k, ck, kind, scale=1, **kw):
        n = self.up(FMT[ck])
        if n < 0 or n > len(self.data) or n % scale:
            raise RefUnclear('bad count')
        d[k] = [self.up(FMT[kind]) for i in range(n // scale)]

    def items(self, d, k, ck, fn, n=None, **kw):
        if ck:
            n = self.up(FMT[ck])
        if n is None or n < 0 or n > len(self.data):
            raise RefUnclear('bad count')
        d[k] = []
        for i in range(n):
            it = {}
            d[k].append(it)
            fn(it)

    def exts(self, d, specs):
        by = {tag: fn for tag, keys, fn in specs}
        while self.pos < len(self.data) and self.data[self.pos] == 1:
            self.pos += 1
            tag = self.take(1)[0]
            if tag not in by:
                raise RefError('%s: unknown extension %d' % (self.cls, tag))
            by[tag]()

    def choice(self, d, k, kind, values): d[k] = self.up(FMT[kind])


# values that have names
CODES = {'media_kind_id': [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17], 'usage_code': list(range(15)),
         'interp_kind': [1, 2, 3, 4, 5, 6, 7], 'code': [4, 5, 6, 7, 8, 9, 10, 13, 14, 15]}


class Gen(Base):
    """fills a dict with random values; refs come from the model builder"""
    is_gen = True

    def __init__(self, rng, builder, order='little'):
        self.rng = rng
        self.b = builder
        self.order = order

    def kind(self, k, kind):
        KINDS[(self.cls, k)] = kind

    def raw(self, b, known=False): pass
    def mark(self, b): pass
    def const(self, kind, v): pass

    def rint(self, kind, lo=None, hi=None):
        a, z = INT_RANGES[kind]
        if lo is not None:
            a = lo
        if hi is not None:
            z = hi
        r = self.rng.random()
        if r < 0.45:
            v = self.rng.randint(0, 120)
        elif r < 0.6:
            v = self.rng.choice([0, 1, -1, a, z])
        elif r < 0.8:
            v = self.rng.randint(-40000, 70000)
        else:
            v = self.rng.randint(a, z)
        return max(a, min(z, v))

    def num(self, d, k, kind, lo=None, hi=None):
        self.kind(k, kind)
        d[k] = self.rint(kind, lo, hi)
        if k in CODES and self.rng.random() < 0.7:
            d[k] = self.rng.choice(CODES[k])

    def boolean(self, d, k):
        self.kind(k, 'bool')
        d[k] = self.rng.random() < 0.5

    def double(self, d, k):
        self.kind(k, 'double')
        d[k] = self.rdouble()

    def rdouble(self):
        r = self.rng.random()
        if r < 0.3:
            return float(self.rng.randint(-100, 100))
        if r < 0.9:
            return self.rng.uniform(-1000, 1000)
        return self.rng.choice([0.0, -0.0, 1e300, -1e-300, 0.1, 1.0 / 3])

    def exp10(self, d, k):
        self.kind(k, 'exp10')
        d[k] = self.rexp10()

    def rexp10(self):
        r = self.rng.random()
        if r < 0.85:
            return self.rng.choice(FLOATS)
        if r < 0.93:
            return round(self.rng.randint(0, 2000000) / 1000.0, 3)
        if r < 0.95:
            # rounded to six decimals in files
            return self.rng.choice([24000 / 1001.0, 30000 / 1001.0, 60000 / 1001.0, 1.0 / 3])
        return self.rng.randint(-0x7fffffff, 0x7fffffff) * 10.0 ** -self.rng.choice([0, 1, 3, 6, 7, 9, 12, 20])

    def rstr(self, chars=MACROMAN, nonempty=False):
        r = self.rng.random()
        if r < 0.15 and not nonempty:
            return u''
        if r < 0.35:
            return self.rng.choice(COMMON)
        if r < 0.93:
            n = self.rng.randint(1, 14)
        elif r < 0.985:
            n = self.rng.randint(15, 400)
        elif self.b is not None and self.b.big:
            n = self.rng.choice([0x7fff, 0x8000, 65000, 65534])
        else:
            n = 255
        if n > 400:
            s = (u''.join(self.rng.choice(chars) for i in range(50)) * (n // 50 + 1))[:n]
            if len(s.encode('utf-8')) > 65000 and chars is U8CHARS:
                s = s[:9000]
            return s
        return u''.join(self.rng.choice(chars) for i in range(n))

    def string(self, d, k, null=False, nonempty=False):
        self.kind(k, 'nstr' if null else 'str')
        s = self.rstr(nonempty=nonempty)
        d[k] = s if (s or not null) else None

    def string8(self, d, k):
        self.kind(k, 'str8')
        d[k] = self.rstr(U8CHARS)

    def fourcc(self, d, k):
        self.kind(k, 'fourcc')
        d[k] = bytes(self.rng.choice(b'AVHDJP1 xyz') for i in range(4))

    def rbytes(self, n=None, most=1 << 20):
        if n is None:
            r = self.rng.random()
            n = 0 if r < 0.1 else self.rng.randint(1, 40) if r < 0.9 else self.rng.randint(41, 700)
            if self.b is not None and self.b.big and self.b.many and self.rng.random() < 0.1:
                self.b.many -= 1
                n = min(most, self.rng.choice([0x7fff, 0x8000, 0xffff, 0x10000, 70000]))
        if n > 700:
            return self.rng.getrandbits(8 * n).to_bytes(n, 'little')
        return bytes(self.rng.getrandbits(8) for i in range(n))

    def fixed(self, d, k, n):
        self.kind(k, 'bytes%d' % n)
        d[k] = self.rbytes(n)

    def blob(self, d, k, ck, **kw):
        self.kind(k, 'bytes')
        d[k] = self.rbytes(most=INT_RANGES[ck][1] if ck in INT_RANGES else 0x7fff)

    def ref(self, d, k, hint='*'):
        self.kind(k, 'ref')
        d[k] = self.b.pick(hint)

    def reflist(self, d, k, ck, hint='*', nulls=True):
        self.kind(k, 'reflist')
        n = self.count(refs=True)
        d[k] = [self.b.pick(hint, null=0.1 if nulls else 0) for i in range(n)]
        if not nulls:
            d[k] = [r for r in d[k] if r]

    def count(self, refs=False):
        r = self.rng.random()
        if self.b is not None and self.b.longs and self.cls == self.b.long:
            self.b.longs -= 1
            return self.rng.choice([127, 128, 129, 255, 256, 257, 300, 513, 700])
        if self.b is not None and self.b.many and self.rng.random() < (0.6 if refs and self.b.big else 0.05):
            self.b.many -= 1
            return self.rng.choice([127, 128, 255, 256, 257, 300] if self.b.big else [16, 33, 64, 65, 100, 127, 129])
        return 0 if r < 0.15 else self.rng.randint(1, 4) if r < 0.95 else self.rng.randint(5, 12)

    def uuid(self, d, k):
        self.kind(k, 'uuid')
        d[k] = self.rbytes(16)

    def mobid(self, d, k):
        self.kind(k, 'mobid')
        d[k] = self.b.rmobid()

    def mob_legacy(self, d, tagged=False): pass

    def date(self, d, k):
        self.kind(k, 'date')
        r = self.rng.random()
        d[k] = (self.rng.randint(0, 0x7fffffff) if r < 0.7 else
                self.rng.randint(0x7fffffff, 0xfffffff0) if r < 0.9 else
                self.rng.choice([0, 1, 1 << 31, (1 << 31) - 1, 0xffffffff]))

    def ints(self, d, k, kind, n):
        self.kind(k, 'ints:%s:%d' % (kind, n))
        d[k] = [self.rint(kind) for i in range(n)]

    def intlist(self, d, k, ck, kind, scale=1, hi=None):
        self.kind(k, 'ints:%s:-1' % kind)
        d[k] = [self.rint(kind) for i in range(self.count())]

    def items(self, d, k, ck, fn, n=None, lo=0):
        self.kind(k, 'items')
        n = max(lo, self.count()) if n is None else n
        d[k] = []
        for i in range(n):
            it = {}
            d[k].append(it)
            fn(it)

    def exts(self, d, specs):
        p = self.rng.choice([0.0, 0.5, 0.7, 1.0])
        for tag, keys, fn in specs:
            if 'always' in keys or self.rng.random() < p:
                fn()

    def choice(self, d, k, kind, values):
        self.kind(k, 'choice')
        d[k] = self.rng.choice(values)


# --------------------------------------------------------------------------
# class descriptions

CLASSES = {}        # class id -> (visitor, avb class name)


def cls(cid, name, **kw):
    def deco(fn):
        CLASSES[cid] = (fn, name)
        fn.cid = cid
        return fn
    return deco


def open_(v, ver):
    v.mark(2)
    v.mark(ver)


def close_(v):
    v.mark(3)


COMP_HINT = ('SEQU', 'SCLP', 'FILL', 'TCCP', 'ECCP', 'TRKR', 'PRCL', 'CTRL', 'SLCT', 'TKFX', 'PVOL', 'ASPI',
             'EQMB', 'MASK', 'STRB', 'SPED', 'REPT', 'RSET', 'TNFX')
DESC_HINT = ('MDES', 'MDTP', 'MDFM', 'MDNG', 'MDFL', 'MULD', 'WAVE', 'AIFC', 'PCMA', 'MPGA', 'DIDD', 'CDCI',
             'MPGI', 'JPED', 'RGBA', 'DATD', 'ANCD')
LOC_HINT = ('FILE', 'WINF', 'URLL', 'MSML')


def component(v, d):
    open_(v, 3)
    v.ref(d, 'left_bob', ('ABOB', 'DIDP', 'MPGP'))
    v.ref(d, 'right_bob', ('ABOB', 'DIDP', 'MPGP'))
    v.num(d, 'media_kind_id', 's16')
    v.exp10(d, 'edit_rate')
    v.string(d, 'name', null=True)
    v.string(d, 'effect_id', null=True)
    v.ref(d, 'attributes', ('ATTR',))
    v.ref(d, 'session_attrs', ('ATTR',))
    v.ref(d, 'precomputed', ('SCLP', 'MCMR', 'APOS'))
    v.exts(d, [(1, ['param_list'], lambda: v.t_ref(d, 'param_list', ('PRLS',)))])


@cls('SEQU', 'Sequence')
def sequence(v, d):
    component(v, d)
    open_(v, 3)
    v.reflist(d, 'components', 'u32', COMP_HINT, nulls=False)
    close_(v)


def clip(v, d):
    component(v, d)
    open_(v, 1)
    v.u32(d, 'length')


@cls('SCLP', 'SourceClip')
def source_clip(v, d):
    clip(v, d)
    open_(v, 3)
    v.mob_legacy(d)
    v.s16(d, 'track_id')
    v.s32(d, 'start_time')
    v.exts(d, [(1, ['mob_id', 'always'], lambda: v.mobid(d, 'mob_id'))])
    close_(v)


@cls('TCCP', 'Timecode')
def timecode(v, d):
    clip(v, d)
    open_(v, 1)
    v.u32(d, 'flags')
    v.u16(d, 'fps')
    v.raw(b'\0' * 6)
    v.u32(d, 'start')
    close_(v)


@cls('ECCP', 'Edgecode')
def edgecode(v, d):
    clip(v, d)
    open_(v, 1)
    v.fixed(d, 'header', 8)
    v.u8(d, 'film_kind')
    v.u8(d, 'code_format')
    v.u16(d, 'base_perf')
    v.const('u32', 0)
    v.s32(d, 'start_ec')
    close_(v)


@cls('TRKR', 'TrackRef')
def track_ref(v, d):
    clip(v, d)
    open_(v, 1)
    v.s16(d, 'relative_scope')
    v.s16(d, 'relative_track')
    close_(v)


@cls('PRCL', 'ParamClip')
def param_clip(v, d):
    clip(v, d)
    open_(v, 1)
    v.s32(d, 'interp_kind')
    v.choice(d, 'value_type', 's16', [1, 2, 4])
    if v.is_dec and d['value_type'] not in (1, 2, 4):
        raise RefError('PRCL value type')

    def pp(p):
        v.s16(p, 'code')
        v.choice(p, 'type', 's16', [1, 2])
        if p['type'] == 2:
            v.double(p, 'value')
        elif p['type'] == 1:
            v.s32(p, 'value', lo=0) if v.is_gen and v.b.unsigned_only else v.s32(p, 'value')
        else:
            raise RefError('PRCL pp type')

    def point(p):
        v.ints(p, 'offset', 's32', 2)
        v.s32(p, 'timescale')
        t = d['value_type']
        if t == 1:
            v.s32(p, 'value')
        elif t == 2:
            v.double(p, 'value')
        else:
            v.ref(p, 'value', ('AVUP', 'PRIT', 'FXPS'))
        v.items(p, 'pp', 's16', pp)
    v.items(d, 'control_points', 's32', point)
    v.exts(d, [(1, ['extrap_kind'], lambda: v.t_s32(d, 'extrap_kind')),
               (2, ['fields'], lambda: v.t_s32(d, 'fields'))])
    close_(v)


@cls('CTRL', 'ControlClip')
def control_clip(v, d):
    clip(v, d)
    open_(v, 3)
    v.s32(d, 'interp_kind')

    def pp(p):
        v.s16(p, 'code')
        v.ints(p, 'value', 's32', 2)

    def point(p):
        v.ints(p, 'offset', 's32', 2)
        v.s32(p, 'time_scale')
        v.mark(1)
        v.ints(p, 'value', 's32', 2)
        v.items(p, 'pp', 's16', pp)
    v.items(d, 'control_points', 's32', point)
    close_(v)


@cls('FILL', 'Filler')
def filler(v, d):
    clip(v, d)
    open_(v, 1)
    close_(v)


TRACK_FIELDS = [  # order on disk: flag bit, name, kind
    (0, 'index', 's16'), (1, 'attributes', 'ATTR'), (9, 'session_attr', 'ATTR'), (2, 'component', 'COMP'),
    (3, 'filler_proxy', 'COMP'), (4, 'bob_data', 'BOB'), (5, 'control_code', 's16'),
    (6, 'control_sub_code', 's16'), (7, 'start_pos', 's32'), (8, 'read_only', 'bool')]


def track_group(v, d, min_tracks=0):
    component(v, d)
    open_(v, 8)
    v.u8(d, 'mc_mode')
    v.s32(d, 'length')
    v.s32(d, 'num_scalars')

    def track(t):
        if v.is_enc:
            flags = sum(1 << b for b, n, kd in TRACK_FIELDS if n in t)
            v.const('u16', flags)
        elif v.is_dec:
            flags = v.up('H')
            if flags & 0xfc00:
                raise RefError('track flags')
        else:
            flags = v.rng.getrandbits(10) if v.rng.random() < 0.4 else 0x87
        for b, n, kd in TRACK_FIELDS:
            if flags & (1 << b):
                if kd in INT_RANGES:
                    v.num(t, n, kd)
                elif kd == 'bool':
                    v.boolean(t, n)
                else:
                    v.ref(t, n, {'ATTR': ('ATTR',), 'COMP': COMP_HINT, 'BOB': ('ABOB', 'DIDP')}[kd])
    v.items(d, 'tracks', 's32', track, lo=min_tracks)
    if v.is_enc:
        if any('lock_number' in t for t in d['tracks']):
            v.mark(1)
            v.mark(1)
            for t in d['tracks']:
                v.mark(TAG_S16)
                v.const('s16', t.get('lock_number', 0))
    elif v.is_dec:
        def locks():
            for t in d['tracks']:
                v.t_s16(t, 'lock_number')
        v.exts(d, [(1, ['x'], locks)])
    elif v.rng.random() < 0.7:
        for t in d['tracks']:
            v.num(t, 'lock_number', 's16')


def fx_info(v, d):
    v.s32(d, 'left_length')
    v.s32(d, 'right_length')
    v.s16(d, 'info_version')
    v.s32(d, 'info_current')
    v.s32(d, 'info_smooth')
    v.s16(d, 'info_color_item')
    v.s16(d, 'info_quality')
    v.s8(d, 'info_is_reversed')
    v.boolean(d, 'info_aspect_on')
    v.ref(d, 'keyframes', ('FXPS', 'PRLS'))
    v.boolean(d, 'info_force_software')
    v.boolean(d, 'info_never_hardware')


def track_effect(v, d):
    track_group(v, d)
    open_(v, 6)
    fx_info(v, d)
    v.exts(d, [(2, ['trackman'], lambda: v.t_ref(d, 'trackman', ('TKMN',)))])


@cls('TKFX', 'TrackEffect')
def tkfx(v, d):
    track_effect(v, d)
    close_(v)


@cls('PVOL', 'PanVolumeEffect')
def pvol(v, d):
    track_effect(v, d)
    open_(v, 5)
    v.s32(d, 'level')
    v.s32(d, 'pan')
    v.boolean(d, 'suppress_validation')
    v.boolean(d, 'level_set')
    v.boolean(d, 'pan_set')
    v.exts(d, [(1, ['supports_seperate_gain'], lambda: v.t_s32(d, 'supports_seperate_gain')),
               (2, ['is_trim_gain_effect'], lambda: v.t_s32(d, 'is_trim_gain_effect'))])
    close_(v)


@cls('ASPI', 'AudioSuitePluginEffect')
def aspi(v, d):
    track_effect(v, d)
    open_(v, 1)

    def chunk(c):
        if v.is_enc:
            v.const('s32', len(c['data']))
        elif v.is_dec:
            n = v.up('i')
        v.s32(c, 'version')
        v.u32(c, 'manufacturer_id')
        v.u32(c, 'product_id')
        v.u32(c, 'plugin_id')
        v.u32(c, 'chunk_id')
        v.string(c, 'name')
        if v.is_enc:
            v.raw(c['data'])
        elif v.is_dec:
            c['data'] = v.take(n)
        else:
            c['data'] = v.rbytes()

    def plugin(p):
        v.string(p, 'name')
        v.u32(p, 'manufacturer_id')
        v.u32(p, 'product_id')
        v.u32(p, 'plugin_id')
        v.items(p, 'chunks', 's32', chunk)
    if v.is_gen:
        v.items(d, 'plugins', None, plugin, n=1)
    else:
        v.items(d, 'plugins', 's32', plugin)

    def legacy():
        v.mob_legacy(d, tagged=True)

    def preset():
        v.mark(TAG_U32)
        if v.is_enc:
            v.const('u32', len(d['preset_path']))
            if d['preset_path']:
                v.mark(TAG_BYTES)
                v.const('u32', len(d['preset_path']))
                v.raw(d['preset_path'])
        elif v.is_dec:
            n = v.up('I')
            d['preset_path'] = b''
            if n:
                v.mark(TAG_BYTES)
                v.const('u32', n)
                d['preset_path'] = v.take(n)
        else:
            d['preset_path'] = v.rbytes()
            v.kind('preset_path', 'bytes')
    v.exts(d, [(1, ['mob_id'], legacy),
               (8, ['mob_id'], lambda: v.mobid(d, 'mob_id')),
               (2, ['mark_in'], lambda: v.t_s64(d, 'mark_in')),
               (3, ['mark_out'], lambda: v.t_s64(d, 'mark_out')),
               (4, ['tracks_to_affect'], lambda: (v.mark(TAG_U32), v.s32(d, 'tracks_to_affect'))),
               (5, ['rendering_mode'], lambda: v.t_s32(d, 'rendering_mode')),
               (6, ['padding_secs'], lambda: v.t_s32(d, 'padding_secs')),
               (9, ['preset_path'], preset)])
    close_(v)


@cls('EQMB', 'EqualizerMultiBand')
def eqmb(v, d):
    track_effect(v, d)
    open_(v, 5)

    def band(b):
        v.s32(b, 'type')
        v.s32(b, 'freq')
        v.s32(b, 'gain')
        v.s32(b, 'q')
        v.boolean(b, 'enable')
    v.items(d, 'bands', 's32', band)
    v.boolean(d, 'effect_enable')
    v.string(d, 'filter_name')
    close_(v)


def time_warp(v, d):
    track_group(v, d)
    open_(v, 2)
    v.s32(d, 'phase_offset')


@cls('MASK', 'CaptureMask')
def mask(v, d):
    time_warp(v, d)
    open_(v, 1)
    v.boolean(d, 'is_double')
    v.u32(d, 'mask_bits')
    close_(v)


@cls('STRB', 'StrobeEffect')
def strobe(v, d):
    time_warp(v, d)
    open_(v, 1)
    v.s32(d, 'strobe_value')
    close_(v)


@cls('SPED', 'MotionEffect')
def motion(v, d):
    time_warp(v, d)
    open_(v, 3)
    v.ints(d, 'speed_ratio', 's32', 2)
    v.exts(d, [(1, ['offset_adjust'], lambda: v.t_double(d, 'offset_adjust')),
               (2, ['source_param_list'], lambda: v.t_ref(d, 'source_param_list', ('PRLS',))),
               (3, ['new_source_calculation'], lambda: v.t_bool(d, 'new_source_calculation'))])
    close_(v)


@cls('REPT', 'Repeat')
def repeat(v, d):
    time_warp(v, d)
    open_(v, 1)
    close_(v)


@cls('RSET', 'EssenceGroup')
def rset(v, d):
    track_group(v, d)
    open_(v, 1)
    v.exts(d, [(1, ['rep_set_type'], lambda: v.t_s32(d, 'rep_set_type'))])
    close_(v)


@cls('TNFX', 'TransitionEffect')
def tnfx(v, d):
    track_group(v, d)
    open_(v, 1)
    v.s32(d, 'cutpoint')
    open_(v, 5)
    fx_info(v, d)
    v.exts(d, [(1, ['trackman'], lambda: v.t_ref(d, 'trackman', ('TKMN',)))])
    close_(v)


@cls('SLCT', 'Selector')
def selector(v, d):
    track_group(v, d, min_tracks=1)
    open_(v, 1)
    v.boolean(d, 'is_ganged')
    if v.is_gen:
        d['selected'] = v.rng.randrange(len(d['tracks']))
    else:
        v.u16(d, 'selected')
    close_(v)


@cls('CMPO', 'Composition')
def composition(v, d):
    track_group(v, d)
    open_(v, 2)
    v.mob_legacy(d)
    v.date(d, 'last_modified')
    v.choice(d, 'mob_type_id', 'u8', [1, 2, 3])
    v.s32(d, 'usage_code')
    v.ref(d, 'descriptor', DESC_HINT)
    v.exts(d, [(1, ['creation_time'], lambda: (v.mark(TAG_S32), v.date(d, 'creation_time'))),
               (2, ['mob_id', 'always'], lambda: v.mobid(d, 'mob_id') if not v.is_gen else v.b.new_mobid(d))])
    close_(v)


# ---- attributes & lists

def attr_blob(v, d):
    pass


@cls('ATTR', 'Attributes')
def attributes(v, d):
    """d['_a'] = [[name, type, value]...]"""
    open_(v, 1)
    if v.is_enc:
        v.const('u32', len(d['_a']))
        for name, t, val in d['_a']:
            v.const('u32', t)
            v.put_str(name)
            if t == 1:
                v.const('s32', val)
            elif t == 2:
                v.put_str(val)
            elif t == 3:
                v.refid(val)
            else:
                v.const('u32', len(val))
                v.raw(val)
    elif v.is_dec:
        n = v.up('I')
        d['_a'] = []
        for i in range(n):
            t = v.up('I')
            name = v.get_str()
            if t == 1:
                val = v.up('i')
            elif t == 2:
                val = v.get_str()
            elif t == 3:
                val = v.up('I')
            elif t == 4:
                val = v.take(v.up('I'))
            else:
                raise RefError('attribute type %d' % t)
            d['_a'].append([name, t, val])
    else:
        d['_a'] = []
        names = set()
        for i in range(v.count()):
            name = v.rng.choice([u'_USER', u'_VERSION', u'OMFI:ATTB', u'Comments', u'TapeID', v.rstr(nonempty=True)])
            if name in names:
                continue
            names.add(name)
            d['_a'].append([name] + gen_attr_value(v))
    close_(v)


def gen_attr_value(v):
    t = v.rng.choice([1, 1, 2, 2, 3, 4])
    if t == 1:
        return [1, v.rint('s32')]
    if t == 2:
        return [2, v.rstr()]
    if t == 3:
        r = v.b.pick(('ATTR', 'PRLS', 'TMCS', 'MCBR', 'MCMR', 'FILE', 'TMBC', 'TKFX', 'SCLP'), null=0.05)
        if r:
            return [3, r]
        return [1, 7]
    return [4, v.rbytes()]


@cls('PRLS', 'ParameterList')
def prls(v, d):
    open_(v, 1)
    v.reflist(d, '_l', 's32', ('PRIT', 'AVUP', 'PRCL'))
    close_(v)


@cls('TMCS', 'TimeCrumbList')
def tmcs(v, d):
    open_(v, 1)
    v.reflist(d, '_l', 's16', ('TMBC',))
    close_(v)


# ---- bin

def setting(v, d):
    open_(v, 6)
    v.string(d, 'name')
    v.string(d, 'kind')
    v.s16(d, 'attr_count')
    v.s16(d, 'attr_type')
    v.ref(d, 'attributes', ('ATTR',))


@cls('BVst', 'BinViewSetting')
def bvst(v, d):
    setting(v, d)
    open_(v, 10)

    def col(c):
        v.string(c, 'title')
        v.s16(c, 'format')
        v.s16(c, 'type')
        v.boolean(c, 'hidden')
    v.items(d, 'columns', 'u16', col)

    def fmts():
        v.mark(TAG_S16)

        def fd(c):
            v.mark(TAG_S16)
            v.s16(c, 'vcid_free_column_id')
            v.mark(TAG_S32)
            if v.is_enc:
                b = c['format_descriptor'].encode('utf-8')
                v.const('s32', len(b))
                v.mark(TAG_STR)
                v.const('u16', len(b) + 2)
                v.const('u16', 0)
                v.raw(b)
            elif v.is_dec:
                n = v.up('i')
                v.mark(TAG_STR)
                v.const('u16', n + 2)
                v.const('u16', 0)
                c['format_descriptor'] = v.take(n).decode('utf-8')
            else:
                c['format_descriptor'] = v.rstr(U8CHARS)[:2000]
        v.items(d, 'format_descriptors', 's16', fd)
    v.exts(d, [(1, ['format_descriptors'], fmts)])
    close_(v)


def bin_body(v, d):
    v.mark(2)
    if v.is_enc:
        large = d['large_bin'] or len(d['items']) > 0xffff
        v.mark(0x0f if large else 0x0e)
    elif v.is_dec:
        ver = v.take(1)[0]
        if ver not in (0x0e, 0x0f):
            raise RefError('bin version')
        large = ver == 0x0f
        d['large_bin'] = large
    else:
        large = v.rng.random() < 0.2
        d['large_bin'] = large
        v.kind('large_bin', 'bool')
    v.ref(d, 'view_setting', ('BVst',))
    v.u64(d, 'uid')

    def item(it):
        v.ref(it, 'mob', ('CMPO',))
        v.s16(it, 'x')
        v.s16(it, 'y')
        v.s32(it, 'keyframe')
        v.boolean(it, 'user_placed')
    if v.is_gen:
        v.b.bin_items(v, d, item)
    else:
        v.items(d, 'items', 'u32' if large else 'u16', item)
    v.s32(d, 'display_mask')
    v.s16(d, 'display_mode')
    v.boolean(d, 'sifted')

    def sift(s):
        v.s16(s, 'method')
        v.string(s, 'string')
        v.string(s, 'column')
    v.items(d, 'sifted_settings', None, sift, n=6)
    if v.is_enc or v.is_dec:
        def sc(c):
            pass
        if v.is_enc:
            v.const('s16', len(d['sort_columns']))
            for a, b in d['sort_columns']:
                v.const('u8', a)
                v.put_str(b)
        else:
            n = v.up('h')
            d['sort_columns'] = []
            for i in range(max(n, 0)):
                a = v.up('B')
                d['sort_columns'].append([a, v.get_str()])
    else:
        d['sort_columns'] = [[v.rng.choice([0, 1, 0, 1, 2, 127, 128, 255]), v.rstr()] for i in range(v.count() if v.rng.random() < 0.5 else 0)]
    v.s16(d, 'mac_font')
    v.s16(d, 'mac_font_size')
    v.s16(d, 'mac_image_scale')
    v.const('s16', 1)
    v.ints(d, 'home_rect', 's16', 4)
    v.const('s16', 1)
    v.ints(d, 'background_color', 'u16', 3)
    v.const('s16', 1)
    v.ints(d, 'forground_color', 'u16', 3)
    v.s16(d, 'ql_image_scale')
    v.ref(d, 'attributes', ('ATTR',)) if not v.is_gen else v.b.bin_attributes(v, d)
    v.boolean(d, 'was_iconic')


@cls('ABIN', 'Bin')
def abin(v, d):
    bin_body(v, d)
    close_(v)


@cls('BINF', 'BinFirst')
def binf(v, d):
    bin_body(v, d)
    open_(v, 1)
    v.s32(d, 'unknown_s32')
    close_(v)


# ---- misc

def file_locator(v, d):
    open_(v, 2)
    v.string(d, 'path')
    v.exts(d, [(1, ['path_posix'], lambda: v.t_str(d, 'path_posix')),
               (2, ['path_utf8'], lambda: v.t_str8(d, 'path_utf8')),
               (3, ['path2_utf8'], lambda: v.t_str8(d, 'path2_utf8'))])
    close_(v)


cls('FILE', 'MacFileLocator')(lambda v, d: file_locator(v, d))
cls('WINF', 'WinFileLocator')(lambda v, d: file_locator(v, d))


@cls('URLL', 'URLLocator')
def urll(v, d):
    close_(v)


def blob_class(cid, name, field, ck):
    @cls(cid, name)
    def fn(v, d):
        open_(v, 1)
        v.blob(d, field, ck)
        close_(v)


blob_class('GRFX', 'GraphicEffect', 'pict_data', 's32')
blob_class('SHLP', 'ShapeList', 'shape_data', 's32')
blob_class('CCFX', 'ColorCorrectionEffect', 'color_correction', 's16')
blob_class('TKPA', 'TrackerParameter', 'settings', 's16')


@cls('FXPS', 'EffectParamList')
def fxps(v, d):
    open_(v, 0x12)
    v.s32(d, 'orig_length')
    v.s32(d, 'window_offset')
    # the keyframe size field sits between the count and the items
    if v.is_enc:
        v.const('s32', len(d['parameters']))
    elif v.is_dec:
        n = v.up('i')
    v.s32(d, 'keyframe_size')

    def par(p):
        for k in ('percent_time', 'level', 'pos_x', 'floor_x', 'ceil_x', 'pos_y', 'floor_y', 'ceil_y', 'scale_x',
                  'scale_y', 'crop_left', 'crop_right', 'crop_top', 'crop_bottom'):
            v.s32(p, k)
        v.ints(p, 'box', 's32', 4)
        for k in ('box_xscale', 'box_yscale', 'box_xpos', 'box_ypos'):
            v.boolean(p, k)
        v.s32(p, 'border_width')
        v.s32(p, 'border_soft')
        for k in ('splill_gain2', 'splill_gain', 'splill_soft2', 'splill_soft'):
            v.s16(p, k)
        v.s8(p, 'enable_key_flags')
        v.intlist(p, 'colors', 's32', 's32')
        v.blob(p, 'user_param', 's32')
        v.boolean(p, 'selected')
    v.items(d, 'parameters', None, par, n=n if v.is_dec else None)
    close_(v)


@cls('AVUP', 'CFUserParam')
def avup(v, d):
    open_(v, 1)
    v.const('s16', 0x4949)
    if not v.is_enc:
        d['byte_order'] = 0x4949
    v.uuid(d, 'uuid')
    if v.is_enc:
        v.const('s32', len(d['data']) + 4)
    elif v.is_dec:
        n = v.up('i')
    v.blob(d, 'data', 's32')
    if v.is_dec and n != len(d['data']) + 4:
        raise RefError('AVUP size')
    close_(v)


@cls('PRIT', 'ParameterItem')
def prit(v, d):
    open_(v, 2)
    v.uuid(d, 'uuid')
    v.choice(d, 'value_type', 's16', [1, 2, 4])
    t = d['value_type']
    if t == 1:
        v.s32(d, 'value')
    elif t == 2:
        v.double(d, 'value')
    elif t == 4:
        v.ref(d, 'value', ('AVUP', 'PRLS', 'FXPS'))
    else:
        raise RefError('PRIT type')
    v.kind('value', 'typed')
    v.string(d, 'name', null=True)
    v.boolean(d, 'enable')
    v.ref(d, 'control_track', ('PRCL', 'CTRL'))
    v.exts(d, [(1, ['contribs_to_sig'], lambda: v.t_bool(d, 'contribs_to_sig'))])
    close_(v)


@cls('MSML', 'MSMLocator')
def msml(v, d):
    open_(v, 2)
    v.mob_legacy(d)
    v.string(d, 'last_known_volume')
    v.exts(d, [(1, ['domain_type'], lambda: v.t_s32(d, 'domain_type')),
               (2, ['mob_id', 'always'], lambda: v.mobid(d, 'mob_id')),
               (3, ['last_known_volume_utf8'], lambda: v.t_str8(d, 'last_known_volume_utf8'))])
    close_(v)


def position(v, d):
    open_(v, 1)
    v.mob_legacy(d)
    v.exts(d, [(1, ['mob_id', 'always'], lambda: v.mobid(d, 'mob_id'))])


def bob_position(v, d):
    position(v, d)
    open_(v, 1)
    v.s32(d, 'sample_num')
    v.s32(d, 'length')
    v.s16(d, 'track_type')
    v.s16(d, 'track_index')


def did_position(v, d):
    bob_position(v, d)
    open_(v, 1)
    v.s32(d, 'strip')
    v.u64(d, 'offset')
    v.u64(d, 'byte_length')
    v.boolean(d, 'spos_invalid')


cls('APOS', 'Position')(lambda v, d: (position(v, d), close_(v)))
cls('ABOB', 'BOBPosition')(lambda v, d: (bob_position(v, d), close_(v)))
cls('DIDP', 'DIDPosition')(lambda v, d: (did_position(v, d), close_(v)))


@cls('MPGP', 'MPGPosition')
def mpgp(v, d):
    did_position(v, d)
    open_(v, 1)
    v.s16(d, 'trailing_discards')
    v.boolean(d, 'need_seq_hdr')
    if v.is_enc:
        v.const('s16', len(d['fields']))
        if d['fields']:
            v.const('s16', 2 * len(d['fields']))
            for a, b in d['fields']:
                v.const('u8', a)
                v.const('u32', b)
    elif v.is_dec:
        n = v.up('h')
        d['fields'] = []
        if n > 0:
            v.const('s16', 2 * n)
            for i in range(n):
                a = v.up('B')
                d['fields'].append([a, v.up('I')])
    else:
        d['fields'] = [[v.rint('u8'), v.rint('u32')] for i in range(v.count())]
    close_(v)


@cls('MCBR', 'BinRef')
def mcbr(v, d):
    open_(v, 1)
    v.s32(d, 'uid_high')
    v.s32(d, 'uid_low')
    v.string(d, 'name')
    v.exts(d, [(1, ['name_utf8', 'always'], lambda: v.t_str8(d, 'name_utf8'))])
    close_(v)


def mob_ref(v, d):
    open_(v, 1)
    v.mob_legacy(d)
    v.s32(d, 'position')
    v.exts(d, [(1, ['mob_id', 'always'], lambda: v.mobid(d, 'mob_id'))])


cls('MCMR', 'MobRef')(lambda v, d: (mob_ref(v, d), close_(v)))


@cls('TMBC', 'Marker')
def marker(v, d):
    mob_ref(v, d)
    open_(v, 3)
    v.s32(d, 'comp_offset')
    v.ref(d, 'attributes', ('ATTR',))
    v.const('s16', 1)
    v.ints(d, 'color', 'u16', 3)
    v.exts(d, [(1, ['handled_codes'], lambda: v.t_bool(d, 'handled_codes'))])
    close_(v)


@cls('TKMN', 'TrackerManager')
def tkmn(v, d):
    open_(v, 1)
    v.ref(d, 'data_slots', ('PRLS',))
    v.ref(d, 'param_slots', ('PRLS',))
    close_(v)


@cls('TKDS', 'TrackerDataSlot')
def tkds(v, d):
    open_(v, 1)
    v.reflist(d, 'tracker_data', 's32', ('TKDA',))
    v.exts(d, [(1, ['track_fg'], lambda: v.t_bool(d, 'track_fg'))])
    close_(v)


@cls('TKPS', 'TrackerParameterSlot')
def tkps(v, d):
    open_(v, 1)
    v.blob(d, 'settings', 's16')
    v.reflist(d, 'params', 's32', ('TKPA',))
    close_(v)


@cls('TKDA', 'TrackerData')
def tkda(v, d):
    open_(v, 1)
    v.blob(d, 'settings', 's16')
    v.u32(d, 'clip_version')
    v.reflist(d, 'clips', 's16', ('PRCL', 'CTRL'))
    v.exts(d, [(1, ['offset_tracking'], lambda: v.t_u32(d, 'offset_tracking')),
               (2, ['smoothing'], lambda: v.t_u32(d, 'smoothing')),
               (3, ['jitter_removal'], lambda: v.t_u32(d, 'jitter_removal')),
               (4, ['filter_amount'], lambda: v.t_double(d, 'filter_amount')),
               (5, ['clip5'], lambda: v.t_ref(d, 'clip5', ('PRCL',))),
               (6, ['clip6'], lambda: v.t_ref(d, 'clip6', ('PRCL',)))])
    close_(v)


# ---- essence descriptors

def media_descriptor(v, d):
    open_(v, 3)
    v.u8(d, 'mob_kind')
    v.ref(d, 'locator', LOC_HINT)
    v.boolean(d, 'intermediate')
    v.ref(d, 'physical_media', DESC_HINT)

    def uid():
        v.mark(TAG_BYTES)
        v.const('s32', 16)
        v.uuid(d, 'uuid')

    def wchar():
        v.mark(TAG_BYTES)
        v.blob(d, 'wchar', 's32')
    v.exts(d, [(1, ['uuid'], uid), (2, ['wchar'], wchar),
               (3, ['attributes'], lambda: v.t_ref(d, 'attributes', ('ATTR',)))])


cls('MDES', 'MediaDescriptor')(lambda v, d: (media_descriptor(v, d), close_(v)))


@cls('MDTP', 'TapeDescriptor')
def mdtp(v, d):
    media_descriptor(v, d)
    open_(v, 2)
    v.s16(d, 'cframe')
    close_(v)


def empty_desc(cid, name):
    @cls(cid, name)
    def fn(v, d):
        media_descriptor(v, d)
        open_(v, 1)
        close_(v)


empty_desc('MDFM', 'FilmDescriptor')
empty_desc('MDNG', 'NagraDescriptor')


def media_file(v, d):
    media_descriptor(v, d)
    open_(v, 3)
    v.exp10(d, 'edit_rate')
    v.s32(d, 'length')
    v.s16(d, 'is_omfi')
    v.s32(d, 'data_offset')


cls('MDFL', 'MediaFileDescriptor')(lambda v, d: (media_file(v, d), close_(v)))


@cls('MULD', 'MultiDescriptor')
def muld(v, d):
    media_file(v, d)
    open_(v, 1)
    v.reflist(d, 'descriptors', 's32', DESC_HINT)
    close_(v)


def lazy_blob(v, d, k, pfmt):
    """byte count in a fixed byte order, whatever the file's"""
    if v.is_enc:
        v.raw(struct.pack(pfmt, len(d[k])))
        v.raw(d[k])
    elif v.is_dec:
        d[k] = v.take(struct.unpack(pfmt, v.take(4))[0])
    else:
        v.kind(k, 'bytes')
        d[k] = v.rbytes()


@cls('WAVE', 'WaveDescriptor')
def wave(v, d):
    media_file(v, d)
    open_(v, 1)
    v.raw(b'RIFF', True)
    lazy_blob(v, d, 'summary', '<I')
    close_(v)


@cls('AIFC', 'AIFCDescriptor')
def aifc(v, d):
    media_file(v, d)
    open_(v, 1)
    v.raw(b'FORM', True)
    lazy_blob(v, d, 'summary', '>I')
    v.exts(d, [(1, ['data_pos'], lambda: v.t_s32(d, 'data_pos'))])
    close_(v)


@cls('PCMA', 'PCMADescriptor')
def pcma(v, d):
    media_file(v, d)
    open_(v, 1)
    v.u16(d, 'channels')
    v.u16(d, 'quantization_bits')
    v.exp10(d, 'sample_rate')
    v.boolean(d, 'locked')
    v.s16(d, 'audio_ref_level')
    v.s32(d, 'electro_spatial_formulation')
    v.u16(d, 'dial_norm')
    v.u32(d, 'coding_format')
    v.u32(d, 'block_align')
    v.u16(d, 'sequence_offset')
    v.u32(d, 'average_bps')
    v.boolean(d, 'has_peak_envelope_data')
    for k in ('peak_envelope_version', 'peak_envelope_format', 'points_per_peak_value', 'peak_envelope_block_size',
              'peak_channel_count', 'peak_frame_count'):
        v.s32(d, k)
    v.u64(d, 'peak_of_peaks_offset')
    v.s32(d, 'peak_envelope_timestamp')
    v.exts(d, [(1, ['ebu_timestamp'], lambda: v.t_s64(d, 'ebu_timestamp')),
               (3, ['timecode_framerate'], lambda: v.t_str(d, 'timecode_framerate'))])
    close_(v)


@cls('MPGA', 'MPGADescriptor')
def mpga(v, d):
    media_file(v, d)
    open_(v, 1)
    v.u16(d, 'channels')
    v.u16(d, 'quantization_bits')
    v.exp10(d, 'sample_rate')
    v.boolean(d, 'locked')
    v.s16(d, 'audio_ref_level')
    v.s32(d, 'electro_spatial_formulation')
    v.u16(d, 'dial_norm')
    v.u32(d, 'coding_format')
    v.u32(d, 'bit_rate')
    v.exts(d, [(1, ['sub_frame_alignment'], lambda: v.t_u64(d, 'sub_frame_alignment')),
               (2, ['origin'], lambda: v.t_u64(d, 'origin'))])
    close_(v)


def did(v, d):
    media_file(v, d)
    open_(v, 2)
    for k in ('stored_height', 'stored_width', 'sampled_height', 'sampled_width', 'sampled_x_offset',
              'sampled_y_offset', 'display_height', 'display_width', 'display_x_offset', 'display_y_offset'):
        v.s32(d, k)
    v.s16(d, 'frame_layout')
    v.ints(d, 'aspect_ratio', 's32', 2)
    v.intlist(d, 'line_map', 's32', 's32', scale=4)
    v.s32(d, 'alpha_transparency')
    v.boolean(d, 'uniformness')
    v.s32(d, 'did_image_size')
    v.ref(d, 'next_did_desc', ('DIDD', 'CDCI'))
    v.fourcc(d, 'compress_method')
    v.s32(d, 'resolution_id')
    v.s32(d, 'image_alignment_factor')

    def pairs(k):
        if v.is_enc:
            for x, y in d[k]:
                v.mark(TAG_S32); v.const('s32', x)
                v.mark(TAG_S32); v.const('s32', y)
        elif v.is_dec:
            d[k] = []
            for i in range(4):
                v.mark(TAG_S32); x = v.up('i')
                v.mark(TAG_S32); y = v.up('i')
                d[k].append([x, y])
        else:
            d[k] = [[v.rint('s32'), v.rint('s32')] for i in range(4)]

    def boxes():
        for k in ('valid_box', 'essence_box', 'source_box'):
            pairs(k)

    v.exts(d, [(1, ['frame_index_byte_order'], lambda: v.t_s16(d, 'frame_index_byte_order')),
               (2, ['frame_sample_size'], lambda: v.t_s32(d, 'frame_sample_size')),
               (3, ['first_frame_offset'], lambda: v.t_s32(d, 'first_frame_offset')),
               (4, ['client_fill_start'], lambda: (v.t_s32(d, 'client_fill_start'), v.t_s32(d, 'client_fill_end'))),
               (5, ['offset_to_rle_frame_index'], lambda: v.t_s32(d, 'offset_to_rle_frame_index')),
               (6, ['frame_start_offset'], lambda: v.t_s32(d, 'frame_start_offset')),
               (8, ['valid_box'], boxes),
               (9, ['framing_box'], lambda: (pairs('framing_box'), v.t_s32(d, 'reformatting_option'))),
               (10, ['transfer_characteristic'], lambda: v.t_uuid(d, 'transfer_characteristic')),
               (11, ['color_primaries'], lambda: (v.t_uuid(d, 'color_primaries'), v.t_uuid(d, 'coding_equations'))),
               (12, ['essence_compression'], lambda: v.t_uuid(d, 'essence_compression')),
               (14, ['essence_element_size_kind'], lambda: v.t_u8(d, 'essence_element_size_kind')),
               (15, ['frame_checked_with_mapper'], lambda: v.t_bool(d, 'frame_checked_with_mapper'))])


cls('DIDD', 'DIDDescriptor')(lambda v, d: (did(v, d), close_(v)))


def cdci(v, d):
    did(v, d)
    open_(v, 2)
    v.u32(d, 'horizontal_subsampling')
    v.u32(d, 'vertical_subsampling')
    v.s32(d, 'component_width')
    v.s16(d, 'color_sitting')
    v.u32(d, 'black_ref_level')
    v.u32(d, 'white_ref_level')
    v.u32(d, 'color_range')
    v.s64(d, 'frame_index_offset')
    v.exts(d, [(1, ['alpha_sampled_width'], lambda: v.t_u32(d, 'alpha_sampled_width')),
               (2, ['ignore_bw'], lambda: v.t_u32(d, 'ignore_bw'))])


cls('CDCI', 'CDCIDescriptor')(lambda v, d: (cdci(v, d), close_(v)))


@cls('MPGI', 'MPGIDescriptor')
def mpgi(v, d):
    cdci(v, d)
    open_(v, 1)
    for k in ('mpeg_version', 'profile', 'gop_structure', 'stream_type'):
        v.u8(d, k)
    for k in ('random_access', 'leading_discard', 'trailing_discard'):
        v.boolean(d, k)
    v.u16(d, 'min_gop_length')
    v.u16(d, 'max_gop_length')
    v.blob(d, 'sequence_hdr', 's32')
    close_(v)


@cls('JPED', 'JPEGDescriptor')
def jped(v, d):
    cdci(v, d)
    open_(v, 1)
    v.s32(d, 'jpeg_table_id')
    v.u64(d, 'jpeg_frame_index_offset')
    v.blob(d, 'quantization_tables', 's32')
    v.exts(d, [(1, ['image_start_align'], lambda: v.t_s32(d, 'image_start_align'))])
    close_(v)


@cls('RGBA', 'RGBADescriptor')
def rgba(v, d):
    did(v, d)
    open_(v, 1)
    if v.is_enc:
        for key in ('Code', 'Size'):
            v.const('u32', len(d['pixel_layout']))
            for it in d['pixel_layout']:
                v.const('u8', it[key])
    elif v.is_dec:
        a = v.take(v.up('I'))
        b = v.take(v.up('I'))
        if len(a) != len(b):
            raise RefError('RGBA layout')
        d['pixel_layout'] = [{'Code': x, 'Size': y} for x, y in zip(a, b)]
    else:
        d['pixel_layout'] = [{'Code': v.rint('u8'), 'Size': v.rint('u8')} for i in range(v.count())]
    for i in range(3):
        v.const('u32', 0)

    def comp():
        v.t_bool(d, 'has_comp_min_ref')
        v.t_u32(d, 'comp_min_ref')
        v.t_bool(d, 'has_comp_max_ref')
        v.t_u32(d, 'comp_max_ref')
    v.exts(d, [(1, ['frame_index_offset'], lambda: v.t_u64(d, 'frame_index_offset')),
               (2, ['has_comp_min_ref'], comp),
               (3, ['alpha_min_ref'], lambda: (v.t_u32(d, 'alpha_min_ref'), v.t_u32(d, 'alpha_max_ref')))])
    close_(v)


def datd(v, d):
    media_file(v, d)
    open_(v, 1)
    v.boolean(d, 'is_offset_to_frame_indexes_valid')
    v.u64(d, 'offset_to_frame_indexes')
    v.s32(d, 'first_frame_offset')
    v.s32(d, 'min_sample_size')
    v.s32(d, 'max_sample_size')


cls('DATD', 'DataDescriptor')(lambda v, d: (datd(v, d), close_(v)))


@cls('ANCD', 'ANCDataDescriptor')
def ancd(v, d):
    datd(v, d)
    open_(v, 1)
    v.s32(d, 'manifest_element_count')
    close_(v)


# --------------------------------------------------------------------------
# whole files

MISC = sorted(set(CLASSES) - {'ABIN', 'BINF'})
LONG = ['SEQU', 'SEQU', 'SEQU', 'SEQU', 'PRLS', 'ATTR', 'ATTR', 'ATTR', 'CMPO', 'CMPO', 'TMCS', 'MULD', 'ABIN', 'PRCL', 'CTRL', 'TRKG', 'TNFX', 'TKFX',
        'MASK', 'SLCT', 'FXPS', 'MPGP', 'BVst', 'TKPS', 'TKDS', 'JPED']


class Model(object):
    """a bin: objs[id] for id 1..n, children created before parents"""

    def __init__(self):
        self.objs = {}
        self.root = 0
        self.last_save = 1500000000
        self.creator = u'pyavb sim'
        self.order = 'little'


class Builder(object):
    def __init__(self, rng, size=20, big=False, order='little', misc=None, mob_pool=None, bob=True,
                 unsigned_only=False, dag=0.35, long=None):
        self.rng = rng
        # a class whose lists are long, as far as its first ones go
        self.long = long
        self.longs = 2 if long else 0
        self.budget = size
        self.big = big
        self.order = order
        self.model = Model()
        self.model.order = order
        self.by_cls = {}
        self.depth = 0
        self.misc = misc
        self.unsigned_only = unsigned_only
        self.dag = dag
        self.mobids = []
        # now and then a few long lists, or deep nesting
        r = rng.random()
        self.many = 0 if size > 1000 else 6 if big else 2 if r < 0.08 else 0
        self.maxdepth = 6
        if r > 0.96 and size < 1000:
            self.maxdepth = 40
            self.dag = min(dag, 0.02)

    def rmobid(self):
        if self.mobids and self.rng.random() < 0.6:
            return self.rng.choice(self.mobids)
        r = self.rng.random()
        if r < 0.15:
            return b'\0' * 32
        return bytes(self.rng.getrandbits(8) for i in range(32))

    def new_mobid(self, d):
        KINDS[('CMPO', 'mob_id')] = 'mobid'
        b = bytes(self.rng.getrandbits(8) for i in range(32))
        self.mobids.append(b)
        d['mob_id'] = b

    def pick(self, hint, null=0.45):
        rng = self.rng
        if rng.random() < null:
            return 0
        names = MISC if hint == '*' else hint
        have = [i for n in names for i in self.by_cls.get(n, ())]
        if have and rng.random() < self.dag:
            return rng.choice(have)
        if self.budget <= 0 or self.depth > self.maxdepth:
            # in large documents nested sharing multiplies the paths, which a save walks one by one
            return rng.choice(have) if have and (self.dag > 0.01 or rng.random() < self.dag) else 0
        return self.new(rng.choice(names))

    def new(self, cid):
        self.budget -= 1
        self.depth += 1
        g = Gen(self.rng, self, self.order)
        g.cls = cid
        d = {'_c': cid}
        try:
            CLASSES[cid][0](g, d)
        finally:
            self.depth -= 1
        i = len(self.model.objs) + 1
        self.model.objs[i] = d
        self.by_cls.setdefault(cid, []).append(i)
        return i

    def bin_items(self, v, d, item):
        n = self.nmobs
        self.depth -= 1
        d['items'] = []
        mobs = [self.new('CMPO') for i in range(n)]
        self.depth += 1
        for m in mobs:
            it = {}
            item(it)
            it['mob'] = m
            d['items'].append(it)

    def bin_attributes(self, v, d):
        d['attributes'] = 0
        KINDS[('ABIN', 'attributes')] = 'ref'
        extra = []
        misc = self.misc
        if misc is None:
            misc = [self.rng.choice(MISC) for i in range(self.rng.randint(0, 3))]
        for c in misc:
            self.budget = max(self.budget, 3)
            extra.append(self.new(c))
        if not extra:
            d['attributes'] = self.pick(('ATTR',), null=0.0)
            return
        a = {'_c': 'ATTR', '_a': [[u'misc%d' % i, 3, r] for i, r in enumerate(extra)]}
        i = len(self.model.objs) + 1
        self.model.objs[i] = a
        self.by_cls.setdefault('ATTR', []).append(i)
        d['attributes'] = i

    def build(self, nmobs=None, root='ABIN'):
        self.nmobs = self.rng.randint(0, 4) if nmobs is None else nmobs
        budget = self.budget
        self.model.root = self.new(root)
        m = prune(self.model)
        if visits(m) > 20000:
            # a save walks every path to an object
            self.model = Model()
            self.model.order = self.order
            self.by_cls, self.mobids = {}, []
            self.longs = 0
            self.budget, self.many, self.maxdepth, self.dag = budget, 0, 6, min(self.dag, 0.003 if budget > 1000 else 0.1)
            self.model.root = self.new(root)
            m = prune(self.model)
        return m


def visits(model):
    """how many paths lead to objects of a pruned model"""
    n = {0: 0}
    for i in sorted(model.objs):
        n[i] = 1 + sum(n[t] for t in ref_targets(model.objs[i]))
    return n[model.root]


def refs_of(d):
    """all reference slots of an object dict, in description order"""
    out = []

    def walk(x, key=None):
        if isinstance(x, dict):
            for k in x:
                if k in REF_FIELDS:
                    val = x[k]
                    if not ref_slot(x, k, d):
                        walk(val, k)
                    elif isinstance(val, list):
                        out.extend((x[k], i) for i in range(len(val)))
                    elif isinstance(val, int) and not isinstance(val, bool):
                        out.append((x, k))
                else:
                    walk(x[k], k)
        elif isinstance(x, list):
            for it in x:
                walk(it)
    if d['_c'] == 'ATTR':
        for a in d['_a']:
            if a[1] == 3:
                out.append((a, 2))
        return out
    walk(d)
    return out


REF_FIELDS = {'left_bob', 'right_bob', 'attributes', 'session_attrs', 'precomputed', 'param_list', 'components',
              'session_attr', 'component', 'filler_proxy', 'bob_data', 'keyframes', 'trackman', 'source_param_list',
              'descriptor', '_l', 'view_setting', 'mob', 'control_track', 'data_slots', 'param_slots', 'tracker_data',
              'params', 'clips', 'clip5', 'clip6', 'locator', 'physical_media', 'descriptors', 'next_did_desc',
              'value'}


def ref_slot(x, k, d):
    if k != 'value':
        return True
    if d['_c'] == 'PRIT':
        return d.get('value_type') == 4
    if d['_c'] == 'PRCL':
        return d.get('value_type') == 4 and 'type' not in x and 'offset' in x
    return False


def ref_targets(d):
    return [c[i] for c, i in refs_of(d)]


def prune(model):
    """renumber, keeping only objects reachable from the root, children first"""
    order = []
    seen = {}
    stack = [(model.root, None)]
    # iterative post-order
    while stack:
        i, it = stack.pop()
        if it is None:
            if i in seen:
                continue
            seen[i] = 0
            it = iter([t for t in ref_targets(model.objs[i]) if t])
        adv = False
        for t in it:
            if t not in seen:
                stack.append((i, it))
                stack.append((t, None))
                adv = True
                break
        if not adv:
            order.append(i)
            seen[i] = len(order)
    new = Model()
    new.__dict__.update({k: v for k, v in model.__dict__.items() if k not in ('objs', 'root')})
    for i in order:
        d = model.objs[i]
        for c, k in refs_of(d):
            if c[k]:
                c[k] = seen[c[k]]
        new.objs[seen[i]] = d
    new.root = seen[model.root]
    return new


def encode_object(d, order, refmap=None, spell=None):
    v = Enc(order, refmap, spell)
    v.cls = d['_c']
    CLASSES[d['_c']][0](v, d)
    return bytes(v.out)


def encode_header(order, n, root, last_save, creator, last_str=None):
    import datetime
    v = Enc(order)
    v.raw(b'\x06\x00' if order == 'little' else b'\x00\x06')
    v.raw(b'Domain')
    fc = lambda s: v.raw(s[::-1] if order == 'little' else s)
    fc(b'OBJD')
    v.put_str(u'AObjDoc')
    v.mark(4)
    if last_str is None:
        last_str = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=last_save)).strftime('%Y/%m/%d %H:%M:%S')
    v.put_str(last_str)
    v.const('u32', n)
    v.const('u32', root)
    v.const('u32', 0x49494949 if order == 'little' else 0x4D4D4D4D)
    v.const('u32', last_save)
    v.const('u32', 0)
    fc(b'ATob')
    fc(b'ATve')
    b = creator.encode('mac_roman')[:30]
    v.const('u16', 30)
    v.raw(b + b' ' * (30 - len(b)))
    v.raw(b'\0' * 16)
    return bytes(v.out)


def encode_file(model, order=None, perm=None, spell=None):
    """perm: list of ids giving the on-disk order (default 1..n); spell: chooses between spellings of decimal numbers"""
    order = order or model.order
    ids = list(perm) if perm else sorted(model.objs)
    refmap = {i: n + 1 for n, i in enumerate(ids)}
    out = bytearray(encode_header(order, len(ids), refmap[model.root], model.last_save, model.creator))
    spans = {}
    for i in ids:
        d = model.objs[i]
        body = encode_object(d, order, refmap, spell)
        cid = d['_c'].encode('ascii')
        start = len(out)
        out += cid[::-1] if order == 'little' else cid
        out += struct.pack('<I' if order == 'little' else '>I', len(body))
        out += body
        spans[i] = (start, len(out))
    return bytes(out), spans, refmap


def decode_record(order, cid, body):
    """one record's bytes -> reference dictionary or RefError"""
    d = {'_c': cid}
    dv = Dec(order, body, cid)
    try:
        CLASSES[cid][0](dv, d)
    except UnicodeDecodeError as e:
        raise RefError('%s: %s' % (cid, e))
    if dv.pos != len(body):
        raise RefError('%s: %d trailing bytes' % (cid, len(body) - dv.pos))
    return d


def record_fields(order, cid, body):
    """[(position, size)] of the single values a record's bytes are read as"""
    fields = []

    class Seen(Dec):
        def take(self, n):
            b = Dec.take(self, n)
            fields.append((self.pos - n, n))
            return b
    try:
        CLASSES[cid][0](Seen(order, body, cid), {'_c': cid})
    except (RefError, UnicodeDecodeError):
        pass
    return fields


def walk_records(data, first, order, count):
    """where each record of a file is, by what the record headers say: [(class, body or None when cut off)]"""
    out = []
    pos = first
    while pos + 8 <= len(data) and len(out) < count:
        cid = data[pos:pos + 4]
        cid = (cid[::-1] if order == 'little' else cid).decode('latin-1')
        size = struct.unpack(('<' if order == 'little' else '>') + 'I', data[pos + 4:pos + 8])[0]
        body = data[pos + 8:pos + 8 + size]
        out.append((cid, body if len(body) == size else None))
        pos += 8 + size
    return out


def decode_header(data):
    """-> (Model without objects, number of objects, where the first record is) or RefError"""
    if data[:2] == b'\x06\x00':
        order = 'little'
    elif data[:2] == b'\x00\x06':
        order = 'big'
    else:
        raise RefError('byte order mark')
    v = Dec(order, data, 'header')
    v.pos = 2

    def fc(s):
        if v.take(4) != (s[::-1] if order == 'little' else s):
            raise RefError('%r is missing in the header' % s)
    if v.take(6) != b'Domain':
        raise RefError('not a bin file')
    fc(b'OBJD')
    if v.get_str() != u'AObjDoc':
        raise RefError('AObjDoc')
    v.mark(4)
    m = Model()
    m.order = order
    try:
        m.last_save_str = v.get_str()
        n = v.up('I')
        m.root = v.up('I')
        v.const('u32', 0x49494949 if order == 'little' else 0x4D4D4D4D)
        m.last_save = v.up('I')
        v.take(4)
        fc(b'ATob')
        fc(b'ATve')
        if v.up('H') != 30:
            raise RefUnclear('creator length')
        m.creator = v.take(30).decode('mac_roman')
    except UnicodeDecodeError as e:
        raise RefError('header: %s' % e)
    if v.take(16) != b'\0' * 16:
        raise RefUnclear('reserved header bytes')
    return m, n, v.pos


def decode_file(data):
    """-> Model (ids = on-disk indices) or RefError"""
    m, n, start = decode_header(data)
    order = m.order
    v = Dec(order, data, 'file')
    v.pos = start
    m.spans = {}
    m.bodies = {}
    for i in range(1, n + 1):
        start = v.pos
        cid = v.take(4)
        cid = (cid[::-1] if order == 'little' else cid).decode('latin-1')
        size = v.up('I')
        body = v.take(size)
        m.spans[i] = (start, v.pos)
        m.bodies[i] = body
        if cid not in CLASSES:
            raise RefError('unknown class %r at object %d' % (cid, i))
        d = decode_record(order, cid, body)
        if '_legacy' in d:
            lo, hi = d.pop('_legacy')
            if 'mob_id' in d:
                d1, d2, d3 = struct.unpack('<IHH', d['mob_id'][16:24])
                if (lo, hi) != (d1, d2 + (d3 << 16)):
                    raise RefError('%s: short mob id disagrees with mob id' % cid)
        m.objs[i] = d
    if v.pos != len(data):
        raise RefError('%d bytes after the last object' % (len(data) - v.pos))
    if not (0 < m.root <= n):
        raise RefError('root index %d of %d' % (m.root, n))
    for i, d in m.objs.items():
        for t in ref_targets(d):
            if t > n:
                raise RefError('object %d refers to %d of %d' % (i, t, n))
    return m


# --------------------------------------------------------------------------
# comparison of two models: lock-step from the roots, up to renumbering

def norm_field(k, val):
    if val is None:
        return u''
    return val


def feq(a, b):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if exp10_exact(a) is None:
        return abs(a - b) <= 2e-6 * max(1.0, abs(a) * 1e-3)
    return abs(a - b) <= 1e-13 * abs(a)


def same_value(a, b, k, out, where, pair, d):
    if isinstance(a, dict) and isinstance(b, dict):
        ka = {x for x in a if not x.startswith('_')}
        kb = {x for x in b if not x.startswith('_')}
        for x in sorted(ka ^ kb):
            if x == 'lock_number' and (a.get(x, 0) or 0) == 0 and (b.get(x, 0) or 0) == 0:
                continue
            out.append('%s.%s present only in %s' % (where, x, 'expected' if x in ka else 'actual'))
        for x in sorted(ka & kb):
            if x in REF_FIELDS and (x != 'value' or ref_slot(a, x, d)):
                if isinstance(a[x], list):
                    if len(a[x]) != len(b[x]):
                        out.append('%s.%s: %d refs, expected %d' % (where, x, len(b[x]), len(a[x])))
                    else:
                        for i in range(len(a[x])):
                            pair(a[x][i], b[x][i], '%s.%s[%d]' % (where, x, i))
                else:
                    pair(a[x], b[x], '%s.%s' % (where, x))
            else:
                same_value(a[x], b[x], x, out, '%s.%s' % (where, x), pair, d)
        return
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append('%s: %d items, expected %d' % (where, len(b), len(a)))
            return
        for i in range(len(a)):
            same_value(a[i], b[i], k, out, '%s[%d]' % (where, i), pair, d)
        return
    if isinstance(a, float) and isinstance(b, (int, float)):
        ok = feq(a, b) if k in ('edit_rate', 'sample_rate') else (a == b or (a != a and b != b))
    elif a in (None, u'') and b in (None, u'') and not isinstance(a, bytes) and not isinstance(b, bytes):
        ok = True
    elif isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        ok = bytes(a) == bytes(b)
    else:
        ok = a == b
    if not ok:
        out.append('%s: %s, expected %s' % (where, short(b), short(a)))


def short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:60] + '...(%d)' % len(s)


def same_models(exp, act, limit=5):
    """list of differences (empty when isomorphic from the roots)"""
    out = []
    fwd = {}
    back = {}
    todo = []

    def pair(a, b, where):
        if not a and not b:
            return
        if not a or not b:
            out.append('%s: %s, expected %s' % (where, 'object' if b else 'none', 'object' if a else 'none'))
            return
        if a in fwd or b in back:
            if fwd.get(a) != b or back.get(b) != a:
                out.append('%s: sharing of objects changed' % where)
            return
        fwd[a] = b
        back[b] = a
        todo.append((a, b, where))
    pair(exp.root, act.root, 'root')
    while todo and len(out) < limit:
        a, b, where = todo.pop()
        x, y = exp.objs[a], act.objs[b]
        if x['_c'] != y['_c']:
            out.append('%s: class %s, expected %s' % (where, y['_c'], x['_c']))
            continue
        where = where if len(where) < 120 else '...' + where[-110:]
        if x['_c'] == 'ATTR':
            if [[n, t] for n, t, v in x['_a']] != [[n, t] for n, t, v in y['_a']]:
                out.append('%s: attribute names/types %s, expected %s' % (
                    where, short([[n, t] for n, t, v in y['_a']]), short([[n, t] for n, t, v in x['_a']])))
                continue
            for (n, t, v1), (_, _, v2) in zip(x['_a'], y['_a']):
                if t == 3:
                    pair(v1, v2, '%s[%r]' % (where, n))
                elif v1 != v2:
                    out.append('%s[%r]: %s, expected %s' % (where, n, short(v2), short(v1)))
            continue
        if x['_c'] in ('PRLS', 'TMCS'):
            if len(x['_l']) != len(y['_l']):
                out.append('%s: %d refs, expected %d' % (where, len(y['_l']), len(x['_l'])))
                continue
            for i in range(len(x['_l'])):
                pair(x['_l'][i], y['_l'][i], '%s[%d]' % (where, i))
            continue
        same_value(x, y, None, out, '%s<%s>' % (where, x['_c']), pair, x)
    return out[:limit]


def self_test():
    import random
    n = 0
    for seed in range(300):
        rng = random.Random(seed)
        for order in ('little', 'big'):
            m = Builder(rng, size=rng.randint(1, 60), big=seed % 7 == 0, order=order,
                        misc=[MISC[(seed + j) % len(MISC)] for j in range(3)]).build()
            data, spans, refmap = encode_file(m)
            m2 = decode_file(data)
            diff = same_models(m, m2)
            assert not diff, (seed, diff)
            data2, _, _ = encode_file(m2)
            assert len(data2) == len(data)
            n += len(m.objs)
    return n


if __name__ == '__main__':
    print(self_test())
