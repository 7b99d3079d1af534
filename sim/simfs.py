"""In-memory file system behind the ordinary open()/os.* seam.

Every path below PREFIX belongs to the active SimFS; everything else goes to
the real functions.  Each operation is numbered and logged, and the fault plan
of the run decides which of them fail, are short, or hit a full disk.  The log
of primitive effects is enough to compute, afterwards, what a crash between
any two operations could have left on the disk.
"""
import builtins
import errno
import io
import os
import stat as stat_mod

PREFIX = '/simfs'
FD_BASE = 1 << 20

ACTIVE = [None]
_real = {}


def _path(p):
    """the simulated path, or None when p is not ours"""
    if ACTIVE[0] is None or isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p == PREFIX or p.startswith(PREFIX + '/'):
        return os.path.normpath(p)
    return None


class Inode(object):
    __slots__ = ('ino', 'data', 'mode', 'isdir', 'target', 'mtime')

    def __init__(self, ino, isdir=False, mode=0o644):
        self.ino = ino
        self.data = bytearray()
        self.mode = mode
        self.isdir = isdir
        self.target = None
        self.mtime = 1500000000


class SimStat(tuple):
    def __new__(cls, mode, ino, size, t):
        self = tuple.__new__(cls, (mode, ino, 77, 1, 0, 0, size, t, t, t))
        self.st_mode, self.st_ino, self.st_dev, self.st_nlink = mode, ino, 77, 1
        self.st_uid = self.st_gid = self.st_flags = 0
        self.st_size = size
        self.st_blksize = 4096
        for k in ('atime', 'mtime', 'ctime'):
            setattr(self, 'st_' + k, float(t))
            setattr(self, 'st_%s_ns' % k, t * 10 ** 9)
        return self


class Desc(object):
    __slots__ = ('node', 'pos', 'read', 'write', 'append', 'path', 'bad')

    def __init__(self, node, path, read, write, append):
        self.node, self.path = node, path
        self.read, self.write, self.append = read, write, append
        self.pos = 0
        self.bad = False


class SimFS(object):
    def __init__(self, faults=(), stats=None, short_rng=None, capacity=None):
        self.names = {PREFIX: Inode(0, isdir=True, mode=0o755)}
        self.next_ino = 1
        self.next_fd = FD_BASE
        self.fds = {}
        self.counts = {}
        self.opno = 0
        self.effects = []          # (opno, kind, args...) for the crash model
        self.base = None           # durable state when recording started
        self.faults = {}
        self.set_faults(faults)
        self.fired = []
        self.stats = stats
        self.short_rng = short_rng     # random legal short reads/writes
        self.capacity = capacity       # bytes, None = unlimited
        self.trace = []
        self.on_op = None              # callback(kind, path) - scheduler hook

    # ---- set-up and inspection, not subject to faults
    def put(self, path, data, mode=0o644):
        n = Inode(self.next_ino, mode=mode)
        self.next_ino += 1
        n.data = bytearray(data)
        self.names[os.path.normpath(path)] = n
        return n

    def mkdir_(self, path):
        n = Inode(self.next_ino, isdir=True, mode=0o755)
        self.next_ino += 1
        self.names[path] = n

    def get(self, path):
        n = self.names.get(self.follow(path))
        return None if n is None or n.isdir else bytes(n.data)

    def listing(self):
        return {p: bytes(n.data) for p, n in self.names.items() if not n.isdir and n.target is None}

    def used(self):
        return sum(len(n.data) for n in {id(n): n for n in self.names.values()}.values())

    def record(self):
        """start of the interval whose crash states we want"""
        self.effects = []
        self.base = {p: (n.ino, bytes(n.data), n.target) for p, n in self.names.items() if not n.isdir}

    def set_faults(self, faults):
        """faults: [opkind, nth (1-based, counted from now), what, sticky]"""
        self.counts = {}
        self.faults = {}
        for kind, nth, what, sticky in faults:
            self.faults.setdefault(kind, []).append([nth, what, sticky])

    def clear_faults(self):
        self.faults = {}
        self.capacity = None

    def op(self, kind, path=''):
        """account for one operation; returns the fault to inject or None"""
        self.opno += 1
        c = self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.on_op is not None:
            self.on_op(kind, path)
        hit = None
        for nth, what, sticky in self.faults.get(kind, ()):
            if c == nth or (sticky and c > nth):
                hit = what
                break
        self.trace.append((kind, hit))
        if hit:
            self.fired.append((kind, hit))
            if self.stats is not None:
                k = 'fault:%s:%s' % (kind, hit)
                self.stats[k] = self.stats.get(k, 0) + 1
        return hit

    @staticmethod
    def err(what, path=None):
        no = getattr(errno, what, errno.EIO)
        raise OSError(no, os.strerror(no), path)

    def effect(self, *args):
        self.effects.append((self.opno,) + args)

    # ---- name space
    def follow(self, path, depth=0):
        path = os.path.normpath(path)
        n = self.names.get(path)
        if n is not None and n.target is not None:
            if depth > 10:
                self.err('ELOOP', path)
            t = n.target
            if not t.startswith('/'):
                t = os.path.join(os.path.dirname(path), t)
            return self.follow(t, depth + 1)
        return path

    def node(self, path, follow=True):
        if follow:
            path = self.follow(path)
        n = self.names.get(path)
        if n is None:
            self.err('ENOENT', path)
        return n

    def parent(self, path):
        d = self.names.get(os.path.dirname(path))
        if d is None:
            self.err('ENOENT', path)
        if not d.isdir:
            self.err('ENOTDIR', path)

    def os_open(self, path, flags, mode=0o777, dir_fd=None):
        what = self.op('open', path)
        if what:
            self.err(what, path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        rd = acc in (os.O_RDONLY, os.O_RDWR)
        wr = acc in (os.O_WRONLY, os.O_RDWR)
        real = self.follow(path)
        n = self.names.get(real)
        if n is None:
            if not flags & os.O_CREAT:
                self.err('ENOENT', path)
            self.parent(real)
            n = Inode(self.next_ino, mode=mode & ~0o022 & 0o777)
            self.next_ino += 1
            self.names[real] = n
            self.effect('link', real, n.ino)
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            self.err('EEXIST', path)
        if n.isdir and wr:
            self.err('EISDIR', path)
        if wr and not (n.mode & 0o200):
            self.err('EACCES', path)
        if flags & os.O_TRUNC and wr:
            del n.data[:]
            self.effect('trunc', n.ino, 0)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = Desc(n, real, rd, wr, bool(flags & os.O_APPEND))
        return fd

    def desc(self, fd):
        d = self.fds.get(fd)
        if d is None:
            self.err('EBADF')
        return d

    def os_close(self, fd):
        d = self.desc(fd)
        try:
            what = self.op('close', d.path)
        finally:
            # however closing ends, the handle is gone
            del self.fds[fd]
        if what and d.write:
            self.err(what, d.path)

    def os_read(self, fd, n):
        d = self.desc(fd)
        if not d.read:
            self.err('EBADF')
        if d.node.isdir:
            self.err('EISDIR')
        what = self.op('read', d.path)
        if what == 'eof':
            return b''
        if what and what not in ('short', 'zeros'):
            self.err(what, d.path)
        if n < 0:
            n = len(d.node.data)
        if what == 'short':
            n = max(1, n // 3)
        elif self.short_rng is not None and n > 1 and self.short_rng.random() < 0.5:
            n = self.short_rng.randint(1, n)
        b = bytes(d.node.data[d.pos:d.pos + n])
        d.pos += len(b)
        return b

    def os_write(self, fd, data):
        d = self.desc(fd)
        if not d.write:
            self.err('EBADF')
        what = self.op('write', d.path)
        data = bytes(data)
        if what == 'short':
            data = data[:max(1, len(data) // 3)]
        elif what == 'torn':
            # part of it reaches the file, then the device fails
            data = data[:len(data) // 2]
        elif what:
            self.err(what, d.path)
        elif self.short_rng is not None and len(data) > 1 and self.short_rng.random() < 0.4:
            data = data[:self.short_rng.randint(1, len(data))]
        if self.capacity is not None:
            pos = len(d.node.data) if d.append else d.pos
            grow = max(0, pos + len(data) - len(d.node.data))
            room = max(0, self.capacity - self.used())
            if grow > room:
                self.fired.append(('write', 'full'))
                if self.stats is not None:
                    self.stats['fault:write:disk-full'] = self.stats.get('fault:write:disk-full', 0) + 1
                data = data[:len(data) - (grow - room)]
                if not data:
                    self.err('ENOSPC', d.path)
        if data:
            pos = len(d.node.data) if d.append else d.pos
            nd = d.node.data
            if pos > len(nd):
                nd.extend(b'\0' * (pos - len(nd)))
            nd[pos:pos + len(data)] = data
            d.pos = pos + len(data)
            self.effect('write', d.node.ino, pos, data)
        if what == 'torn':
            self.err('EIO', d.path)
        return len(data)

    def os_lseek(self, fd, pos, how):
        d = self.desc(fd)
        what = self.op('seek', d.path)
        if what:
            self.err(what, d.path)
        new = {0: 0, 1: d.pos, 2: len(d.node.data)}[how] + pos
        if new < 0:
            self.err('EINVAL')
        d.pos = new
        return new

    def os_fsync(self, fd):
        d = self.desc(fd)
        what = self.op('fsync', d.path)
        if what:
            self.err(what, d.path)
        self.effect('fsyncdir' if d.node.isdir else 'fsync', d.node.ino)

    def os_ftruncate(self, fd, n):
        d = self.desc(fd)
        what = self.op('truncate', d.path)
        if what:
            self.err(what, d.path)
        self._trunc(d.node, n)

    def _trunc(self, node, n):
        del node.data[n:]
        node.data.extend(b'\0' * (n - len(node.data)))
        self.effect('trunc', node.ino, n)

    def os_truncate(self, path, n):
        what = self.op('truncate', path)
        if what:
            self.err(what, path)
        self._trunc(self.node(path), n)

    def os_rename(self, a, b, **kw):
        what = self.op('rename', a)
        if what:
            self.err(what, a)
        a, b = os.path.normpath(a), os.path.normpath(b)
        n = self.node(a, follow=False)
        self.parent(b)
        t = self.names.get(b)
        if t is not None and t.isdir:
            self.err('EISDIR', b)
        del self.names[a]
        self.names[b] = n
        self.effect('rename', a, b)

    def os_unlink(self, path, **kw):
        what = self.op('unlink', path)
        if what:
            self.err(what, path)
        n = self.node(path, follow=False)
        if n.isdir:
            self.err('EISDIR', path)
        del self.names[os.path.normpath(path)]
        self.effect('unlink', path)

    def os_link(self, a, b, **kw):
        what = self.op('link', a)
        if what:
            self.err(what, a)
        if b in self.names:
            self.err('EEXIST', b)
        n = self.node(a)
        self.names[b] = n
        self.effect('link', b, n.ino)

    def os_symlink(self, target, path, *a, **kw):
        if path in self.names:
            self.err('EEXIST', path)
        n = Inode(self.next_ino)
        self.next_ino += 1
        n.target = target
        self.names[path] = n

    def os_readlink(self, path, **kw):
        n = self.node(path, follow=False)
        if n.target is None:
            self.err('EINVAL', path)
        return n.target

    def _stat(self, n):
        kind = stat_mod.S_IFDIR if n.isdir else stat_mod.S_IFLNK if n.target is not None else stat_mod.S_IFREG
        return SimStat(kind | n.mode, n.ino + 10, len(n.data), n.mtime)

    def os_stat(self, path, follow_symlinks=True, **kw):
        return self._stat(self.node(path, follow_symlinks))

    def os_fstat(self, fd):
        return self._stat(self.desc(fd).node)

    def os_listdir(self, path='.'):
        n = self.node(path)
        if not n.isdir:
            self.err('ENOTDIR', path)
        path = self.follow(path)
        return sorted(os.path.basename(p) for p in self.names if p != path and os.path.dirname(p) == path)

    def os_mkdir(self, path, mode=0o777, **kw):
        if path in self.names:
            self.err('EEXIST', path)
        self.parent(path)
        self.mkdir_(path)

    def os_rmdir(self, path, **kw):
        if self.os_listdir(path):
            self.err('ENOTEMPTY', path)
        del self.names[os.path.normpath(path)]

    def os_chmod(self, path, mode, **kw):
        what = self.op('chmod', path)
        if what:
            self.err(what, path)
        self.node(path).mode = mode & 0o7777

    def os_access(self, path, mode, **kw):
        try:
            n = self.node(path)
        except OSError:
            return False
        return not (mode & os.W_OK and not n.mode & 0o200)

    def os_utime(self, path, *a, **kw):
        self.node(path)

    # ---- crash model
    def crash_points(self):
        """number of distinct prefixes of the recorded effects"""
        return len(self.effects) + 1

    def crash_state(self, k, rng, path):
        """bytes (or None) that a crash after the first k effects may leave at path.

        Name-space changes persist in order, as any prefix; file contents
        persist as any subset of the writes since the last fsync of that file,
        the last of them possibly torn, file lengths as of the persisted writes.
        """
        eff = self.effects[:k]
        names = {p: v[0] for p, v in self.base.items()}
        data = {v[0]: (bytearray(v[1]), True) for p, v in self.base.items()}
        meta = [i for i, e in enumerate(eff) if e[1] in ('link', 'rename', 'unlink')]
        forced = 0
        for i, e in enumerate(eff):
            if e[1] == 'fsyncdir':
                forced = len([m for m in meta if m < i])
        mode = rng.randint(0, 3)
        keep = len(meta) if mode in (0, 1) else rng.randint(forced, len(meta))
        for i in meta[:keep]:
            e = eff[i]
            if e[1] == 'link':
                names[e[2]] = e[3]
            elif e[1] == 'rename':
                if e[2] in names:
                    names[e[3]] = names.pop(e[2])
            else:
                names.pop(e[2], None)
        seen = 0
        p = os.path.normpath(path)
        while self.base.get(p, (0, 0, None))[2] is not None and seen < 10:
            t = self.base[p][2]
            p = t if t.startswith('/') else os.path.normpath(os.path.join(os.path.dirname(p), t))
            seen += 1
        if p not in names:
            return None
        ino = names[p]
        mine = [e for e in eff if e[1] in ('write', 'trunc', 'fsync') and e[2] == ino]
        out = bytearray(data[ino][0]) if ino in data else bytearray()
        last = max([i for i, e in enumerate(mine) if e[1] == 'fsync'] or [-1])
        pend = [i for i in range(last + 1, len(mine))]
        if mode == 0:
            chosen = set(pend)
            torn = None
        elif mode == 1:
            chosen = set(i for i in pend if rng.random() < 0.5)
            torn = rng.choice(sorted(chosen)) if chosen and rng.random() < 0.5 else None
        elif mode == 2:
            n = rng.randint(0, len(pend))
            chosen = set(pend[:n])
            torn = pend[n - 1] if n and rng.random() < 0.5 else None
        else:
            chosen = set()
            torn = None
        for i, e in enumerate(mine):
            if i > last and i not in chosen:
                continue
            if e[1] == 'trunc':
                del out[e[3]:]
                out.extend(b'\0' * (e[3] - len(out)))
            elif e[1] == 'write':
                b = e[4]
                if i == torn:
                    b = b[:rng.randint(0, len(b))]
                pos = e[3]
                if pos > len(out):
                    out.extend(b'\0' * (pos - len(out)))
                out[pos:pos + len(b)] = b
        return bytes(out)


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, mode, name, closefd=True):
        self.fs, self.fd = fs, fd
        self.name = name
        self._closefd = closefd
        d = fs.desc(fd)
        self._r, self._w = d.read, d.write
        self.mode = mode

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readable(self): self._check(); return self._r
    def writable(self): self._check(); return self._w
    def seekable(self): self._check(); return True
    def fileno(self): self._check(); return self.fd
    def isatty(self): return False

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        data = self.fs.os_read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        return self.fs.os_write(self.fd, b)

    def seek(self, pos, how=0):
        self._check()
        return self.fs.os_lseek(self.fd, pos, how)

    def tell(self):
        self._check()
        return self.fs.desc(self.fd).pos

    def truncate(self, n=None):
        self._check()
        if n is None:
            n = self.tell()
        self.fs.os_ftruncate(self.fd, n)
        return n

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if self._closefd and self.fd in self.fs.fds:
                self.fs.os_close(self.fd)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    isfd = isinstance(file, int) and not isinstance(file, bool)
    if isfd:
        if file < FD_BASE or ACTIVE[0] is None:
            return _real['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif _path(file) is None:
        return _real['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs = ACTIVE[0]
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in base
    kind = base.replace('+', '')
    if kind not in ('r', 'w', 'a', 'x'):
        raise ValueError('invalid mode: %r' % mode)
    flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT | os.O_APPEND,
             'x': os.O_CREAT | os.O_EXCL}[kind]
    flags |= os.O_RDWR if plus else (os.O_RDONLY if kind == 'r' else os.O_WRONLY)
    name = file
    if isfd:
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = fs.os_open(_path(file), flags, 0o666)
    try:
        if not isfd and fs.desc(fd).node.isdir:
            fs.os_close(fd)
            fs.err('EISDIR', str(file))
        raw = SimRaw(fs, fd, mode, name, closefd)
        if kind == 'a':
            fs.desc(fd).pos = len(fs.desc(fd).node.data)
    except KeyError:
        fs.err('EBADF')
    binary = 'b' in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif kind == 'r':
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
    t.mode = mode
    return t


class _Entry(object):
    def __init__(self, d, name):
        self.name = name
        self.path = os.path.join(d, name)

    def stat(self, follow_symlinks=True): return os.stat(self.path)
    def is_file(self, follow_symlinks=True): return os.path.isfile(self.path)
    def is_dir(self, follow_symlinks=True): return os.path.isdir(self.path)
    def is_symlink(self): return os.path.islink(self.path)


class _Scan(list):
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


class _Fn(object):
    """callable that does not bind when stored in a class, like a builtin"""
    def __init__(self, fn):
        self.fn = fn
        self.__name__ = fn.__name__

    def __call__(self, *a, **kw):
        return self.fn(*a, **kw)


def install():
    """put the dispatchers in place (once per process, before importing the code under test)"""
    if _real:
        return
    _real['io_open'] = io.open
    builtins.open = io.open = _Fn(sim_open)

    def path_fn(name, method, nargs=1):
        if not hasattr(os, name):
            return
        real = getattr(os, name)
        _real[name] = real

        def fn(path='.', *args, **kw):
            if isinstance(path, int) and not isinstance(path, bool) and path >= FD_BASE and ACTIVE[0] is not None:
                if name in ('stat',):
                    return ACTIVE[0].os_fstat(path)
                if name in ('truncate',):
                    return ACTIVE[0].os_ftruncate(path, *args)
                if name in ('chmod', 'utime'):
                    return None
                return real(path, *args, **kw)
            p = _path(path)
            if p is None:
                return real(path, *args, **kw)
            if nargs == 2:
                q = _path(args[0]) if args else _path(kw.pop('dst'))
                if q is None:
                    SimFS.err('EXDEV', p)
                return getattr(ACTIVE[0], method)(p, q, *args[1:], **kw)
            r = getattr(ACTIVE[0], method)(p, *args, **kw)
            if name in ('readlink', 'listdir') and isinstance(os.fspath(path), bytes):
                return os.fsencode(r) if name == 'readlink' else [os.fsencode(x) for x in r]
            return r
        fn.__name__ = name
        setattr(os, name, _Fn(fn))

    for name in ('open', 'truncate', 'stat', 'listdir', 'mkdir', 'rmdir', 'chmod', 'access', 'utime', 'readlink'):
        path_fn(name, 'os_' + name)
    path_fn('unlink', 'os_unlink')
    path_fn('remove', 'os_unlink')
    path_fn('rename', 'os_rename', 2)
    path_fn('replace', 'os_rename', 2)
    path_fn('link', 'os_link', 2)

    real_lstat = _real['lstat'] = os.lstat

    def lstat(path, **kw):
        p = _path(path)
        if p is None:
            return real_lstat(path, **kw)
        return ACTIVE[0].os_stat(p, follow_symlinks=False)
    os.lstat = _Fn(lstat)

    real_symlink = os.symlink

    def symlink(src, dst, *a, **kw):
        p = _path(dst)
        if p is None:
            return real_symlink(src, dst, *a, **kw)
        return ACTIVE[0].os_symlink(os.fspath(src), p)
    os.symlink = _Fn(symlink)

    real_scandir = os.scandir

    def scandir(path='.'):
        p = _path(path)
        if p is None:
            return real_scandir(path)
        if isinstance(os.fspath(path), bytes):
            return _Scan(_Entry(os.fsencode(p), os.fsencode(n)) for n in ACTIVE[0].os_listdir(p))
        return _Scan(_Entry(p, n) for n in ACTIVE[0].os_listdir(p))
    os.scandir = _Fn(scandir)

    for name in ('listxattr', 'getxattr', 'setxattr', 'chown', 'lchown', 'statvfs'):
        if hasattr(os, name):
            def mk(real, name):
                def fn(path, *args, **kw):
                    p = _path(path)
                    if p is None and not (isinstance(path, int) and path >= FD_BASE):
                        return real(path, *args, **kw)
                    if name == 'listxattr':
                        return []
                    if name in ('chown', 'lchown', 'setxattr'):
                        return None
                    SimFS.err('ENOTSUP', p)
                return fn
            setattr(os, name, _Fn(mk(getattr(os, name), name)))

    def fd_fn(name, method):
        if not hasattr(os, name):
            return
        real = getattr(os, name)
        _real[name] = real

        def fn(fd, *args, **kw):
            if isinstance(fd, int) and fd >= FD_BASE and ACTIVE[0] is not None:
                return getattr(ACTIVE[0], method)(fd, *args, **kw)
            return real(fd, *args, **kw)
        fn.__name__ = name
        setattr(os, name, _Fn(fn))
    for name, m in (('close', 'os_close'), ('read', 'os_read'), ('write', 'os_write'), ('lseek', 'os_lseek'),
                    ('fsync', 'os_fsync'), ('fdatasync', 'os_fsync'), ('ftruncate', 'os_ftruncate'),
                    ('fstat', 'os_fstat')):
        fd_fn(name, m)
    if hasattr(os, 'fchmod'):
        real_fchmod = os.fchmod

        def fchmod(fd, mode):
            if isinstance(fd, int) and fd >= FD_BASE and ACTIVE[0] is not None:
                ACTIVE[0].desc(fd).node.mode = mode & 0o7777
                return
            return real_fchmod(fd, mode)
        os.fchmod = _Fn(fchmod)
    real_fchown = getattr(os, 'fchown', None)
    if real_fchown:
        def fchown(fd, *a):
            if isinstance(fd, int) and fd >= FD_BASE:
                return
            return real_fchown(fd, *a)
        os.fchown = _Fn(fchown)

    real_fdopen = os.fdopen

    def fdopen(fd, mode='r', buffering=-1, encoding=None, *args, **kw):
        if isinstance(fd, int) and fd >= FD_BASE and ACTIVE[0] is not None:
            return sim_open(fd, mode, buffering, encoding, *args, **kw)
        return real_fdopen(fd, mode, buffering, encoding, *args, **kw)
    os.fdopen = _Fn(fdopen)


class active(object):
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        ACTIVE[0] = self.fs
        return self.fs

    def __exit__(self, *a):
        ACTIVE[0] = None
