"""
A simulated file system and process table, behind the ordinary Python names
(builtins.open, os.*, subprocess.Popen, os.kill) for paths under ROOT and for simulated
process ids.  Everything else passes through to the real functions.

Every call on the file system is one numbered step; at any step the plan may ask for an
error, a short write or a crash.  After a crash nothing the program does has an effect any
more.  Two kinds of crash: 'process' keeps what reached the kernel; 'power' keeps, of every
file, a state between its last fsync and now, and of every directory a prefix of the changes
since its last fsync.
"""
import os, io, errno, stat as st_, subprocess, sys, builtins
from .core import *

ROOT = '/simfs'
FDBASE = 1 << 20
R = {}            # the real functions
CUR = None        # the active world


class SimCrash(BaseException):
    """the simulated program (or machine) dies here"""


def world():
    return CUR


def set_world(w):
    global CUR
    CUR = w
    if w is not None:
        import tempfile
        if tempfile._name_sequence is None or not isinstance(tempfile._name_sequence, _Names):
            tempfile._name_sequence = _Names()
        tempfile._name_sequence.n = 0
        tempfile.tempdir = ROOT + '/tmp'
    else:
        import tempfile
        tempfile.tempdir = None


class _Names:
    n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim%05d' % self.n


class Inode:
    _n = 1000

    def __init__(self, kind, mode):
        Inode._n += 1
        self.ino = Inode._n
        self.kind = kind           # 'file' | 'dir' | 'link'
        self.mode = mode; self.uid = 0; self.gid = 0; self.nlink = 1
        self.data = bytearray()
        self.entries = {} if kind == 'dir' else None
        self.target = None
        self.mtime = 0
        self.snaps = [b'']         # file: contents since the last fsync, first = durable
        self.dlog = []             # dir: (name, old inode, new inode) since the last fsync
        self.durable = True        # created before the program started

    def clone_meta(self):
        return (self.mode, self.uid, self.gid)


def err(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    return OSError(code, os.strerror(code), path) if path is not None else OSError(code, os.strerror(code))


class World:
    def __init__(self, sim):
        self.sim = sim
        self.root = Inode('dir', 0o755)
        self.fds = {}
        self.nextfd = FDBASE
        self.n = 0                 # steps taken by the program
        self.armed = False         # faults only while armed
        self.faults = []           # [{'at': step, 'kind': ..., ...}]
        self.fired = []
        self.crashed = False
        self.procs = {}
        self.signals = []          # (pid, sig, result)
        self.trace = []
        self.mkdirs(ROOT + '/tmp')
        self.onstep = None
        self.pidn = 4000
        self.exec = None           # (argv, options) -> Proc
        self.on_free = None        # a process number became free
        self.on_change = None      # the set of processes changed
        self.space = None          # bytes left on the device
        self.interrupt = False     # ^C arrives while the program waits for another

    # ------------------------------------------------------------ steps and faults
    def step(self, op, path, writes=None):
        """one system call; returns None or a fault to apply to this call"""
        if self.crashed:
            raise SimCrash()
        if not self.armed:
            return None
        k = self.n
        self.n += 1
        self.trace.append((op, path))
        self.sim.mark(op + ' ')
        if self.onstep is not None:
            self.onstep(op, path)
        for f in self.faults:
            if f['at'] == k:
                self.fired.append((f, op))
                kind = f['kind']
                self.sim.count('fs_' + kind)
                self.sim.mark('!%s ' % kind)
                if kind == 'crash':
                    self.crashed = True
                    raise SimCrash()
                if kind == 'err':
                    e = f.get('errno') or errno.EIO
                    if op == 'close' and e != errno.EIO:
                        e = errno.EIO
                    raise err(e, path if op not in ('write', 'fsync', 'close', 'read') else None)
                return f
        return None

    # ------------------------------------------------------------ tree
    def parts(self, path):
        return [x for x in path.split('/') if x and x != '.']

    def walk(self, path, follow=True, depth=0):
        """(parent inode, name, inode or None)"""
        if depth > 20:
            raise err(errno.ELOOP, path)
        ps = self.parts(path)
        node = self.root
        parent = None
        name = ''
        stack = []
        for i, p in enumerate(ps):
            if node is None:
                raise err(errno.ENOENT, path)
            if node.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            if p == '..':
                node = stack.pop() if stack else self.root
                parent = stack[-1] if stack else None
                continue
            parent = node; name = p
            stack.append(node)
            node = parent.entries.get(p)
            if node is not None and node.kind == 'link' and (follow or i < len(ps) - 1):
                t = node.target
                if not t.startswith('/'):
                    t = '/' + '/'.join(ps[:i]) + '/' + t
                rest = '/'.join(ps[i + 1:])
                return self.walk(t + ('/' + rest if rest else ''), follow, depth + 1)
        return parent, name, node

    def need(self, path, follow=True):
        n = self.walk(path, follow)[2]
        if n is None:
            raise err(errno.ENOENT, path)
        return n

    def setent(self, d, name, node):
        old = d.entries.get(name)
        d.dlog.append((name, old, node))
        if node is None:
            d.entries.pop(name, None)
        else:
            d.entries[name] = node

    def mkdirs(self, path):
        node = self.root
        for p in self.parts(path):
            n = node.entries.get(p)
            if n is None:
                n = node.entries[p] = Inode('dir', 0o755)
            node = n
        return node

    # harness side: direct, stepless, durable
    def put(self, path, data, mode=0o600, uid=0, gid=0):
        d = self.mkdirs(os.path.dirname(path))
        n = Inode('file', mode)
        n.uid, n.gid = uid, gid
        n.data = bytearray(data); n.snaps = [bytes(data)]
        d.entries[os.path.basename(path)] = n
        return n

    def put_link(self, path, target):
        d = self.mkdirs(os.path.dirname(path))
        n = Inode('link', 0o777); n.target = target
        d.entries[os.path.basename(path)] = n

    def peek(self, path):
        """content of a file, None if there is none"""
        try:
            n = self.walk(path)[2]
        except OSError:
            return None
        return None if n is None or n.kind != 'file' else bytes(n.data)

    def drop(self, path):
        p, name, n = self.walk(path, follow=False)
        if n is not None:
            del p.entries[name]

    def ls(self, path):
        n = self.walk(path)[2]
        return sorted(n.entries) if n is not None and n.kind == 'dir' else None

    def power(self):
        """the machine loses power: reduce everything to what is durable"""
        ch = self.sim.ch

        def visit(d):
            if d.dlog:
                k = ch.below(len(d.dlog) + 1)
                self.sim.count('fs_lost_metadata', len(d.dlog) - k)
                for name, old, new in reversed(d.dlog[k:]):
                    if old is None:
                        d.entries.pop(name, None)
                    else:
                        d.entries[name] = old
                d.dlog = []
            for name in sorted(d.entries):
                n = d.entries[name]
                if n.kind == 'dir':
                    visit(n)
                elif n.kind == 'file' and len(n.snaps) > 1:
                    k = ch.below(len(n.snaps))
                    if k < len(n.snaps) - 1:
                        self.sim.count('fs_lost_data')
                    s = n.snaps[k]
                    if k and len(s) > len(n.snaps[k - 1]) and ch.chance(300):
                        a = len(n.snaps[k - 1])
                        s = s[:a + ch.below(len(s) - a + 1)]       # torn
                        self.sim.count('fs_torn')
                    n.data = bytearray(s); n.snaps = [bytes(s)]
        visit(self.root)

    def restart(self):
        """a new program after a crash or simply later"""
        self.crashed = False
        self.armed = False
        self.fds = {}
        self.faults = []
        self.sync()

    def sync(self):
        """everything so far reaches the disk"""
        def visit(d):
            d.dlog = []
            for n in d.entries.values():
                if n.kind == 'dir':
                    visit(n)
                elif n.kind == 'file':
                    n.snaps = [bytes(n.data)]
        visit(self.root)

    # ------------------------------------------------------------ files
    def open(self, path, flags, mode=0o777):
        f = self.step('open', path)
        parent, name, n = self.walk(path, follow=not flags & os.O_NOFOLLOW)
        if n is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            if parent is None:
                raise err(errno.ENOENT, path)
            n = Inode('file', mode & ~0o022 & 0o7777)
            n.durable = False
            self.setent(parent, name, n)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if n.kind == 'dir' and flags & (os.O_WRONLY | os.O_RDWR):
                raise err(errno.EISDIR, path)
            if flags & os.O_DIRECTORY and n.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            if flags & os.O_TRUNC and n.kind == 'file':
                if n.data:
                    n.data = bytearray()
                    n.snaps.append(b'')
        fd = self.nextfd
        self.nextfd += 1
        self.fds[fd] = [n, flags, len(n.data) if flags & os.O_APPEND else 0, path]
        if f is not None and f['kind'] == 'crash_after':
            self.crashed = True
            raise SimCrash()
        return fd

    def ent(self, fd):
        if self.crashed:
            raise SimCrash()
        e = self.fds.get(fd)
        if e is None:
            raise err(errno.EBADF)
        return e

    def write(self, fd, data):
        e = self.ent(fd)
        if (e[1] & os.O_ACCMODE) == os.O_RDONLY:
            raise err(errno.EBADF)
        data = bytes(data)
        f = self.step('write', e[3])
        n = e[0]
        if f is not None and f['kind'] in ('short', 'torn', 'full') and len(data):
            m = f.get('n', 1) % len(data)
            if f['kind'] == 'short':
                m = max(1, m)
            data = data[:m]
        if data or f is None:
            pos = len(n.data) if e[1] & os.O_APPEND else e[2]
            if pos > len(n.data):
                n.data.extend(bytes(pos - len(n.data)))
            n.data[pos:pos + len(data)] = data
            e[2] = pos + len(data)
            n.snaps.append(bytes(n.data))
            n.mtime = self.sim.now
        if f is not None:
            if f['kind'] in ('torn', 'crash_after'):
                self.crashed = True
                raise SimCrash()
            if f['kind'] == 'full':
                # what fits is written; the rest fails from now on
                self.faults.append({'at': self.n, 'kind': 'err', 'errno': errno.ENOSPC})
                if not data:
                    raise err(errno.ENOSPC)
        return len(data)

    def read(self, fd, n):
        e = self.ent(fd)
        f = self.step('read', e[3])
        if e[0].kind == 'dir':
            raise err(errno.EISDIR)
        d = bytes(e[0].data[e[2]:e[2] + n])
        if f is not None and f['kind'] == 'short' and len(d) > 1:
            d = d[:max(1, f.get('n', 1) % len(d))]
        e[2] += len(d)
        return d

    def close(self, fd):
        e = self.fds.get(fd)
        if e is None:
            if self.crashed:
                raise SimCrash()
            raise err(errno.EBADF)
        del self.fds[fd]              # gone whatever the outcome
        if self.crashed:
            return
        if (e[1] & os.O_ACCMODE) != os.O_RDONLY:
            self.step('close', e[3])

    def fsync(self, fd):
        e = self.ent(fd)
        f = self.step('fsync', e[3])
        n = e[0]
        if n.kind == 'dir':
            n.dlog = []
        else:
            n.snaps = [bytes(n.data)]
        if f is not None and f['kind'] == 'crash_after':
            self.crashed = True
            raise SimCrash()

    def rename(self, a, b):
        f = self.step('rename', a)
        pa, na, x = self.walk(a, follow=False)
        if x is None:
            raise err(errno.ENOENT, a, b)
        pb, nb, y = self.walk(b, follow=False)
        if y is not None and y.kind == 'dir' and x.kind != 'dir':
            raise err(errno.EISDIR, a, b)
        if x is not y:
            self.setent(pb, nb, x)
            self.setent(pa, na, None)
        if f is not None and f['kind'] == 'crash_after':
            self.crashed = True
            raise SimCrash()

    def unlink(self, path):
        f = self.step('unlink', path)
        p, name, n = self.walk(path, follow=False)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == 'dir':
            raise err(errno.EISDIR, path)
        self.setent(p, name, None)
        if f is not None and f['kind'] == 'crash_after':
            self.crashed = True
            raise SimCrash()

    def stat(self, path, follow=True):
        if self.crashed:
            raise SimCrash()
        n = self.need(path, follow)
        return self.mkstat(n)

    # ------------------------------------------------------------ processes
    def newproc(self, cls, name, **kw):
        self.pidn += 1
        p = cls(self, self.pidn, name, **kw)
        self.procs[p.pid] = p
        self.changed()
        return p

    def changed(self):
        if self.on_change is not None:
            self.on_change()

    def spawn(self, args, *a, **kw):
        self.step('spawn', str(args[0]))
        proc = self.exec(list(args), kw)
        self.sim.log('proc', proc.pid, 'spawned', *[str(x) for x in args])
        return SimPopen(self, proc, args, kw)

    def kill(self, pid, sig):
        pid = int(pid); sig = int(sig)
        self.step('kill', pid)
        p = self.procs.get(pid) if pid > 0 else None
        self.signals.append((self.sim.now, pid, sig, p))
        if sig:
            self.sim.log('kill', pid, sig, p)
        if pid <= 0:
            return None              # a group, or everybody: the oracle judges it
        if p is None:
            raise err(errno.ESRCH)
        if p.uid != 1000:
            raise PermissionError(errno.EPERM, os.strerror(errno.EPERM))
        if sig:
            p.got.append((self.sim.now, sig))
            if p.alive:
                p.deliver(sig)
        return None

    def mkstat(self, n):
        t = {'file': st_.S_IFREG, 'dir': st_.S_IFDIR, 'link': st_.S_IFLNK}[n.kind]
        m = n.mtime / 1e6
        return os.stat_result((t | n.mode, n.ino, 77, n.nlink, n.uid, n.gid, len(n.data), m, m, m))


class Proc:
    """a simulated process"""

    def __init__(self, w, pid, name, child=False, uid=1000):
        self.w = w; self.pid = pid; self.name = name; self.child = child; self.uid = uid
        self.alive = True; self.rc = None; self.got = []

    def __repr__(self):
        return '%s %d%s' % (self.name, self.pid, '' if self.alive else ' (exited %s)' % self.rc)

    def deliver(self, sig):
        """a signal other than 0 arrives"""
        self.exit(-sig)

    def exit(self, rc):
        if not self.alive:
            return
        self.alive = False
        self.rc = rc
        self.w.sim.log('proc', self.pid, self.name, 'exits', rc)
        self.on_exit()
        if not self.child:
            self.gone()
        self.w.changed()

    def on_exit(self):
        pass

    def gone(self):
        """nothing of it remains: its number is free"""
        if self.w.procs.get(self.pid) is self:
            del self.w.procs[self.pid]
            if self.w.on_free is not None:
                self.w.on_free(self.pid)
        self.w.changed()


class _Pipe:
    def __init__(self, data=b''):
        self.data = data; self.closed = False

    def close(self):
        self.closed = True

    def read(self, n=-1):
        d, self.data = self.data, b''
        return d

    def readline(self):
        return self.read()

    def write(self, d):
        return len(d)

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimPopen:
    """subprocess.Popen for a simulated process"""

    def __init__(self, w, proc, args, kw):
        self.w = w; self.proc = proc; self.args = args; self.pid = proc.pid; self.returncode = None
        self.stdin = _Pipe() if kw.get('stdin') == subprocess.PIPE else None
        self.stdout = _Pipe() if kw.get('stdout') == subprocess.PIPE else None
        self.stderr = _Pipe() if kw.get('stderr') == subprocess.PIPE else None

    def _reap(self):
        if self.returncode is None and not self.proc.alive:
            self.returncode = self.proc.rc
            self.proc.gone()
        return self.returncode

    def poll(self):
        if self.returncode is None:
            self.w.step('poll', self.pid)
            self._reap()
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            self.w.step('wait', self.pid)
            w = self.w
            ended = w.sim.block(lambda: not self.proc.alive or w.interrupt, None if timeout is None else int(timeout * SEC), 'waitpid')
            if w.interrupt:
                w.interrupt = False
                raise KeyboardInterrupt()
            if not ended:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._reap()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        out = []
        for p, d in ((self.stdout, getattr(self.proc, 'out', b'')), (self.stderr, getattr(self.proc, 'errout', b''))):
            if p is None:
                out.append(None)
            else:
                p.close()
                out.append(d)
        if self.stdin is not None:
            self.stdin.close()
        return tuple(out)

    def send_signal(self, sig):
        self.poll()
        if self.returncode is None:
            self.w.kill(self.pid, sig)

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in (self.stdin, self.stdout, self.stderr):
            if p is not None:
                p.close()
        self.wait()


def simpath(p):
    if p.__class__ is not str:
        if isinstance(p, (bytes, bytearray)):
            try:
                p = bytes(p).decode()
            except UnicodeDecodeError:
                return None
        elif hasattr(p, '__fspath__'):
            p = p.__fspath__()
            if not isinstance(p, str):
                return None
        else:
            return None
    if p.startswith(ROOT) and (len(p) == len(ROOT) or p[len(ROOT)] == '/'):
        return p
    return None


class SimRaw(io.RawIOBase):
    def __init__(self, w, fd, name, readable, writable, closefd=True):
        self.w = w; self.fd = fd; self.name = name
        self.r = readable; self.wr = writable; self.closefd = closefd
        self.mode = 'rb+' if readable and writable else 'wb' if writable else 'rb'

    def readable(self):
        return self.r

    def writable(self):
        return self.wr

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        d = self.w.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if CUR is not self.w:
            return len(b)           # a file object that outlived its world
        return self.w.write(self.fd, b)

    def seek(self, pos, whence=0):
        e = self.w.ent(self.fd)
        e[2] = pos if whence == 0 else e[2] + pos if whence == 1 else len(e[0].data) + pos
        return e[2]

    def tell(self):
        return self.w.ent(self.fd)[2]

    def truncate(self, size=None):
        e = self.w.ent(self.fd)
        self.w.step('truncate', e[3])
        n = e[2] if size is None else size
        d = e[0].data
        if n < len(d):
            del d[n:]
        else:
            d.extend(bytes(n - len(d)))
        e[0].snaps.append(bytes(d))
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.closefd and CUR is self.w and self.fd in self.w.fds:
                self.w.close(self.fd)


MODES = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
         'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = CUR
    p = None
    if w is not None:
        if isinstance(file, int) and not isinstance(file, bool):
            if file >= FDBASE:
                p = file
        else:
            p = simpath(file)
    if p is None:
        return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    k = [c for c in mode if c in MODES]
    if len(k) != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if 'b' in mode and (encoding or errors or newline):
        raise ValueError('binary mode')
    plus = '+' in mode
    flags = MODES[k[0]]
    if plus:
        flags = flags & ~os.O_ACCMODE | os.O_RDWR
    if isinstance(p, int):
        fd = p
        w.ent(fd)
    elif opener is not None:
        fd = opener(p, flags)
    else:
        fd = w.open(p, flags, 0o666)
    rd = k[0] == 'r' or plus
    wr = k[0] != 'r' or plus
    raw = SimRaw(w, fd, file, rd, wr, closefd)
    try:
        if w.fds[fd][0].kind == 'dir' and not opener:
            raise err(errno.EISDIR, p if isinstance(p, str) else None)
        line = buffering == 1
        if buffering == 0:
            if 'b' not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedRandom(raw, size) if rd and wr else io.BufferedWriter(raw, size) if wr else io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


# ------------------------------------------------------------ os.*
def _p1(name, fn, nofd=False):
    real = R[name] = getattr(os, name)

    def f(path, *a, **k):
        w = CUR
        if w is not None and not k.get('dir_fd'):
            if isinstance(path, int) and not isinstance(path, bool):
                if path >= FDBASE:
                    return fn(w, path, *a, **k)
            else:
                p = simpath(path)
                if p is not None:
                    return fn(w, p, *a, **k)
        return real(path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _fd1(name, fn):
    real = R[name] = getattr(os, name)

    def f(fd, *a, **k):
        w = CUR
        if w is not None and isinstance(fd, int) and fd >= FDBASE:
            return fn(w, fd, *a, **k)
        return real(fd, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _p2(name, fn):
    real = R[name] = getattr(os, name)

    def f(a, b, *r, **k):
        w = CUR
        if w is not None:
            x, y = simpath(a), simpath(b)
            if x is not None or y is not None:
                if x is None or y is None:
                    raise err(errno.EXDEV, str(a), str(b))
                return fn(w, x, y, *r, **k)
        return real(a, b, *r, **k)
    f.__name__ = name
    setattr(os, name, f)


class DirEntry:
    def __init__(self, d, name, node, w):
        self.name = name; self.path = d + '/' + name; self.node = node; self.w = w

    def inode(self):
        return self.node.ino

    def is_dir(self, *, follow_symlinks=True):
        if self.node.kind == 'link' and follow_symlinks:
            try:
                return self.w.need(self.path).kind == 'dir'
            except OSError:
                return False
        return self.node.kind == 'dir'

    def is_file(self, *, follow_symlinks=True):
        if self.node.kind == 'link' and follow_symlinks:
            try:
                return self.w.need(self.path).kind == 'file'
            except OSError:
                return False
        return self.node.kind == 'file'

    def is_symlink(self):
        return self.node.kind == 'link'

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self.w.stat(self.path, follow_symlinks)

    def __fspath__(self):
        return self.path


class Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def node_of(w, p, follow=True):
    return w.ent(p)[0] if isinstance(p, int) else w.need(p, follow)


def _scandir(w, p):
    w.step('scandir', p)
    n = node_of(w, p)
    if n.kind != 'dir':
        raise err(errno.ENOTDIR, p)
    return Scan([DirEntry(p, k, n.entries[k], w) for k in sorted(n.entries)])


def _listdir(w, p):
    w.step('listdir', p)
    n = node_of(w, p)
    if n.kind != 'dir':
        raise err(errno.ENOTDIR, p)
    return sorted(n.entries)


def _mkdir(w, p, mode=0o777):
    w.step('mkdir', p)
    parent, name, n = w.walk(p)
    if n is not None:
        raise err(errno.EEXIST, p)
    if parent is None:
        raise err(errno.ENOENT, p)
    w.setent(parent, name, Inode('dir', mode & ~0o022))


def _rmdir(w, p):
    w.step('rmdir', p)
    parent, name, n = w.walk(p, follow=False)
    if n is None:
        raise err(errno.ENOENT, p)
    if n.kind != 'dir':
        raise err(errno.ENOTDIR, p)
    if n.entries:
        raise err(errno.ENOTEMPTY, p)
    w.setent(parent, name, None)


def _chmod(w, p, mode, **k):
    w.step('chmod', p)
    node_of(w, p, k.get('follow_symlinks', True)).mode = mode & 0o7777


def _chown(w, p, uid, gid, **k):
    w.step('chown', p)
    n = node_of(w, p, k.get('follow_symlinks', True))
    if uid != -1:
        n.uid = uid
    if gid != -1:
        n.gid = gid


def _readlink(w, p):
    if w.crashed:
        raise SimCrash()
    n = w.need(p, False)
    if n.kind != 'link':
        raise err(errno.EINVAL, p)
    return n.target


def _link(w, a, b, **k):
    w.step('link', a)
    n = w.need(a)
    parent, name, x = w.walk(b, follow=False)
    if x is not None:
        raise err(errno.EEXIST, a, b)
    n.nlink += 1
    w.setent(parent, name, n)


def _symlink(a, b, *r, **k):
    w = CUR
    y = simpath(b) if w is not None else None
    if y is None:
        return R['symlink'](a, b, *r, **k)
    w.step('symlink', y)
    parent, name, x = w.walk(y, follow=False)
    if x is not None:
        raise err(errno.EEXIST, a, b)
    n = Inode('link', 0o777); n.target = a
    w.setent(parent, name, n)


def _truncate(w, p, n):
    w.step('truncate', p)
    d = node_of(w, p)
    if n < len(d.data):
        del d.data[n:]
    else:
        d.data.extend(bytes(n - len(d.data)))
    d.snaps.append(bytes(d.data))


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = CUR
    if w is not None and dir_fd is None:
        p = simpath(path)
        if p is not None:
            return w.open(p, flags, mode)
    return R['os.open'](path, flags, mode, dir_fd=dir_fd)


def _lseek(w, fd, pos, how):
    e = w.ent(fd)
    e[2] = pos if how == 0 else e[2] + pos if how == 1 else len(e[0].data) + pos
    return e[2]


def install():
    """before the package is imported"""
    R['open'] = builtins.open
    builtins.open = io.open = sim_open
    R['os.open'] = os.open
    os.open = _os_open
    R['fdopen'] = os.fdopen
    _p1('stat', lambda w, p, dir_fd=None, follow_symlinks=True: w.mkstat(node_of(w, p, follow_symlinks)) if not w.crashed else w.stat(p))
    _p1('lstat', lambda w, p, dir_fd=None: w.stat(p, False))
    _p1('access', lambda w, p, m, **k: w.walk(p)[2] is not None)
    _p1('unlink', lambda w, p, dir_fd=None: w.unlink(p))
    _p1('remove', lambda w, p, dir_fd=None: w.unlink(p))
    _p1('mkdir', lambda w, p, mode=0o777, dir_fd=None: _mkdir(w, p, mode))
    _p1('rmdir', lambda w, p, dir_fd=None: _rmdir(w, p))
    _p1('listdir', _listdir)
    _p1('scandir', _scandir)
    _p1('chmod', _chmod)
    _p1('chown', _chown)
    _p1('lchown', lambda w, p, u, g: _chown(w, p, u, g, follow_symlinks=False))
    _p1('readlink', lambda w, p, dir_fd=None: _readlink(w, p))
    _p1('truncate', _truncate)
    _p1('utime', lambda w, p, *a, **k: None)

    def nox(w, p, *a, **k):
        raise err(errno.ENOTSUP, p)
    for n in ('listxattr', 'getxattr', 'setxattr'):
        if hasattr(os, n):
            _p1(n, nox)
    _p2('rename', lambda w, a, b, **k: w.rename(a, b))
    _p2('replace', lambda w, a, b, **k: w.rename(a, b))
    _p2('link', _link)
    R['symlink'] = os.symlink
    os.symlink = _symlink
    _fd1('close', lambda w, fd: w.close(fd))
    _fd1('write', lambda w, fd, d: w.write(fd, d))
    _fd1('read', lambda w, fd, n: w.read(fd, n))
    _fd1('fsync', lambda w, fd: w.fsync(fd))
    _fd1('fdatasync', lambda w, fd: w.fsync(fd))
    _fd1('fstat', lambda w, fd: w.mkstat(w.ent(fd)[0]))
    _fd1('fchmod', _chmod)
    _fd1('fchown', _chown)
    _fd1('ftruncate', _truncate)
    _fd1('lseek', _lseek)
    _fd1('isatty', lambda w, fd: False)
    # processes
    R['kill'] = os.kill

    def kill(pid, sig):
        w = CUR
        if w is not None:
            return w.kill(pid, sig)
        return R['kill'](pid, sig)
    os.kill = kill
    R['Popen'] = subprocess.Popen

    class Popen(R['Popen']):
        def __new__(cls, *a, **k):
            if CUR is not None:
                return CUR.spawn(*a, **k)
            return super().__new__(cls)
    Popen.__name__ = 'Popen'
    subprocess.Popen = Popen
    import shutil
    shutil._use_fd_functions = False
    import tempfile, importlib
    importlib.reload(tempfile)
