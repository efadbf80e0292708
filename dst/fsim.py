"""Simulated storage: real files in a scratch directory behind a raw device
whose every call can be made short, slow, failing or fatal.

Only the device is simulated.  The buffering and text layers above it are the
interpreter's own, so code under test sees exactly what it would see on a real
faulty disk.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from dst import sched

REAL = {
    'open': io.open, 'os.open': os.open, 'os.read': os.read, 'os.write': os.write,
    'os.close': os.close, 'os.unlink': os.unlink, 'os.fsync': os.fsync,
}
NAMES = dict((n, getattr(os, n)) for n in ('rename', 'replace', 'unlink', 'remove', 'link', 'symlink'))
FS = [None]         # the active file system


class SimRaw(io.RawIOBase):
    def __init__(self, fs, name, fd, readable, writable, entry):
        io.RawIOBase.__init__(self)
        self.fs = fs
        self.name = name
        self.fd = fd
        self._r = readable
        self._w = writable
        self.entry = entry
        self.released = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self.released:
            raise ValueError('I/O operation on closed file')
        want = len(b)
        fault = self.fs.device('read', self.entry)
        if fault == 'short' and want > 1:
            want = max(1, min(want, 3))
        limit = self.fs.readsize
        if limit:
            want = min(want, limit)
        data = REAL['os.read'](self.fd, want)
        b[:len(data)] = data
        return len(data)

    def readall(self):
        chunks = []
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return b''.join(chunks)
            chunks.append(bytes(buf[:n]))

    def write(self, b):
        if self.released:
            raise ValueError('I/O operation on closed file')
        data = bytes(b)
        if self.fs.dead:
            return len(data)
        fault = self.fs.device('write', self.entry, data, self.fd)
        if self.fs.dead:
            return len(data)
        if fault == 'short' and len(data) > 1:
            data = data[:max(1, len(data) // 3)]
        limit = self.fs.writesize
        if limit and len(data) > limit:
            data = data[:limit]
        return REAL['os.write'](self.fd, data)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if self.fs.dead:
            return size
        if size is None:
            size = self.tell()
        self.fs.device('truncate', self.entry)
        os.ftruncate(self.fd, size)
        return size

    def close(self):
        if self.released:
            return
        self.released = True
        try:
            io.RawIOBase.close(self)
        finally:
            REAL['os.close'](self.fd)
            self.entry['open'] = False
            if not self.fs.dead:
                self.fs.device('close', self.entry)

    def __del__(self):
        # only on garbage collection, which is far too late for a caller
        if not self.released:
            self.released = True
            try:
                REAL['os.close'](self.fd)
            except OSError:
                pass


class FS(object):
    active = None

    def __init__(self, faults=(), bufsize=8192, readsize=0, writesize=0):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix='dst-fs-', dir=base)
        self.faults = [list(f) for f in faults]     # [tid, opidx, call, n, kind]
        self.bufsize = bufsize
        self.readsize = readsize
        self.writesize = writesize
        self.dead = False
        self.counts = {}
        self.handles = []       # every handle opened by an operation
        self.opened = []        # (tid, opidx, relative path, mode)
        self.fired = {}
        self.failures = {}      # (tid, opidx) -> kinds that fired in it
        self.fds = {}

    # -- paths
    def path(self, name):
        return os.path.join(self.root, name)

    def inside(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = os.path.abspath(path)
        if full == self.root or full.startswith(self.root + os.sep):
            return os.path.relpath(full, self.root)
        return None

    def put(self, name, data):
        full = self.path(name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with REAL['open'](full, 'wb') as f:
            f.write(data)

    def content(self, name):
        try:
            with REAL['open'](self.path(name), 'rb') as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError):
            return None

    def listing(self):
        found = []
        for base, dirs, names in os.walk(self.root):
            for n in names:
                found.append(os.path.relpath(os.path.join(base, n), self.root))
        return sorted(found)

    def destroy(self):
        for raw in self.handles:
            raw = raw.get('raw')
            if raw is not None and not raw.released:
                raw.released = True
                try:
                    REAL['os.close'](raw.fd)
                except OSError:
                    pass
        for fd in list(self.fds):
            try:
                REAL['os.close'](fd)
            except OSError:
                pass
        self.fds.clear()
        shutil.rmtree(self.root, ignore_errors=True)

    # -- faults
    def who(self):
        run = sched.CURRENT[0]
        if run is None or run.cur is None:
            return (-1, -1)
        return (run.cur.tid, run.cur.opidx)

    def device(self, call, entry, data=None, fd=None):
        """Asks the fault plan what happens to this device call."""
        if self.dead:
            return None
        who = self.who()
        key = who + (call,)
        n = self.counts[key] = self.counts.get(key, 0) + 1
        run = sched.CURRENT[0]
        if run is not None and run.cur is not None and not run.cur.nopreempt:
            run.point(-10)
        for f in self.faults:
            if f[0] == who[0] and f[1] == who[1] and f[2] == call and (f[3] == n or f[3] == 0):
                return self.fire(f[4], call, who, data, fd)
        return None

    def fire(self, kind, call, who, data, fd):
        name = '%s:%s' % (call, kind)
        self.fired[name] = self.fired.get(name, 0) + 1
        if kind == 'short':
            return 'short'
        self.failures.setdefault(who, []).append(name)
        if kind == 'crash':
            self.dead = True
            raise sched.SimCrash('crash at %s' % call)
        if kind == 'torn':          # part of the data reaches the disk, then the process dies
            if data:
                REAL['os.write'](fd, data[:max(0, len(data) // 2)])
            self.dead = True
            raise sched.SimCrash('torn %s' % call)
        if kind == 'partial':       # part of the data reaches the disk, then the device fails
            if data and len(data) > 1:
                REAL['os.write'](fd, data[:len(data) // 2])
            raise OSError(errno.EIO, 'injected')
        if kind == 'interrupt':
            raise KeyboardInterrupt('injected')
        raise OSError(getattr(errno, kind), 'injected')

    def after(self, tid, opidx, name):
        """Handles an operation left open, and the content of the file it named."""
        left = [h['path'] for h in self.handles if h['who'] == (tid, opidx) and h['open']]
        return left, self.content(name) if isinstance(name, str) else None

    # -- the open call
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
            closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            entry = self.fds.pop(file)
            fd, rel = file, entry['path']
        else:
            rel = self.inside(file)
            if rel is None:
                return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            fd = None
        binary = 'b' in mode
        letters = mode.replace('b', '').replace('t', '').replace('U', '')
        plus = '+' in letters
        kind = letters.replace('+', '') or 'r'
        readable = kind == 'r' or plus
        writable = kind in 'wax' or plus
        if binary and (encoding or errors or newline):
            raise ValueError('binary mode takes no text arguments')
        if fd is None:
            entry = self.entry(rel, mode)
            self.device('open', entry)
            flags = os.O_RDWR if plus else (os.O_WRONLY if writable else os.O_RDONLY)
            if kind == 'w':
                flags |= os.O_CREAT | os.O_TRUNC
            elif kind == 'a':
                flags |= os.O_CREAT | os.O_APPEND
            elif kind == 'x':
                flags |= os.O_CREAT | os.O_EXCL
            if self.dead:
                raise sched.SimCrash('dead')
            fd = REAL['os.open'](file, flags | os.O_CLOEXEC, 0o644)
        raw = SimRaw(self, file, fd, readable, writable, entry)
        entry['open'] = True
        entry['raw'] = raw
        run = sched.CURRENT[0]
        if run is not None and run.cur is not None and not run.cur.nopreempt:
            try:
                run.point(-11)
            except BaseException:
                # the interruption struck inside of open(): the interpreter cleans up
                raw.fs_close_quietly()
                raise
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if plus:
            buffer = io.BufferedRandom(raw, size)
        elif writable:
            buffer = io.BufferedWriter(raw, size)
        else:
            buffer = io.BufferedReader(raw, size)
        # kept so that the garbage collector never closes what the caller forgot
        entry['keep'] = buffer
        if binary:
            return buffer
        text = io.TextIOWrapper(buffer, encoding or 'utf-8', errors, newline, buffering == 1)
        text.mode = mode
        entry['keep'] = text
        return text

    def entry(self, rel, mode):
        entry = {'path': rel, 'mode': mode, 'who': self.who(), 'open': False, 'raw': None}
        self.handles.append(entry)
        self.opened.append(self.who() + (rel, mode))
        return entry

    # -- descriptor level calls
    def os_open(self, path, flags, mode=0o777, **kw):
        rel = self.inside(path)
        if rel is None:
            return REAL['os.open'](path, flags, mode, **kw)
        entry = self.entry(rel, 'os:%d' % flags)
        self.device('open', entry)
        fd = REAL['os.open'](path, flags, mode, **kw)
        entry['open'] = True
        self.fds[fd] = entry
        return fd

    def os_write(self, fd, data):
        entry = self.fds.get(fd)
        if entry is None:
            return REAL['os.write'](fd, data)
        data = bytes(data)
        if self.dead:
            return len(data)
        fault = self.device('write', entry, data, fd)
        if fault == 'short' and len(data) > 1:
            data = data[:max(1, len(data) // 3)]
        if self.writesize:
            data = data[:self.writesize]
        return REAL['os.write'](fd, data)

    def os_read(self, fd, n):
        entry = self.fds.get(fd)
        if entry is None:
            return REAL['os.read'](fd, n)
        if self.device('read', entry) == 'short':
            n = min(n, 3)
        if self.readsize:
            n = min(n, self.readsize)
        return REAL['os.read'](fd, n)

    def os_close(self, fd):
        entry = self.fds.pop(fd, None)
        REAL['os.close'](fd)
        if entry is not None:
            entry['open'] = False
            self.device('close', entry)

    def os_fsync(self, fd):
        for entry in self.handles:
            raw = entry.get('raw')
            if raw is not None and raw.fd == fd and entry['open']:
                self.device('fsync', entry)
        if fd in self.fds:
            self.device('fsync', self.fds[fd])
        return REAL['os.fsync'](fd)

    # -- names
    def moving(self, call, real):
        def fn(src, dst=None, **kw):
            inside = self.inside(src) is not None or dst is not None and self.inside(dst) is not None
            if inside:
                if self.dead:
                    return None
                self.device(call, None)
            return real(src, **kw) if dst is None else real(src, dst, **kw)
        return fn

    # -- installation
    def install(self):
        for call in ('rename', 'replace', 'unlink', 'remove', 'link', 'symlink'):
            setattr(os, call, self.moving(call, NAMES[call]))
        builtins.open = self.open
        io.open = self.open
        os.open = self.os_open
        os.read = self.os_read
        os.write = self.os_write
        os.close = self.os_close
        os.fsync = self.os_fsync

    def uninstall(self):
        for call, real in NAMES.items():
            setattr(os, call, real)
        builtins.open = REAL['open']
        io.open = REAL['open']
        os.open = REAL['os.open']
        os.read = REAL['os.read']
        os.write = REAL['os.write']
        os.close = REAL['os.close']
        os.fsync = REAL['os.fsync']


def _close_quietly(self):
    self.released = True
    REAL['os.close'](self.fd)
    self.entry['open'] = False


SimRaw.fs_close_quietly = _close_quietly
