"""Simulated storage and streams.

All files below one scratch directory are opened through a raw layer of ours (the buffering, text and compression layers above it are
the real ones): it delivers short reads and writes, device errors at chosen byte positions, a full disk, interrupted calls, and a crash of
the process at a chosen disk operation, after which nothing reaches the files any more (data still in buffers is lost).
Standard input and output are raw streams of the same kind.
"""
import builtins
import bz2
import errno as errno_mod
import gzip
import io
import lzma
import os
import random
import shutil
import sys
import tempfile

REAL = {'open': builtins.open, 'replace': os.replace, 'rename': os.rename, 'remove': os.remove, 'unlink': os.unlink, 'mkdir': os.mkdir,
        'rmdir': os.rmdir, 'truncate': os.truncate, 'scandir': os.scandir, 'listdir': os.listdir}


class Crash(BaseException):
    """The process died here."""


def oserror(name, path=None):
    num = getattr(errno_mod, name)
    return OSError(num, os.strerror(num), path)


class Entries:
    """What os.scandir returns."""

    def __init__(self, entries):
        self.entries = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def close(self):
        self.entries = iter(())


class Disk:
    """faults: dicts with `kind`:
      open    {path, nth, errno}        the nth open of that path fails
      read    {path, at, errno}         reading at or behind byte `at` fails
      write   {path, at, errno}         bytes from position `at` on cannot be written
      close   {path, errno}             closing a written file fails
      space   {bytes}                   the disk has room for that many more bytes
      intr    {nth}                     the nth raw read or write is interrupted by a signal
      crash   {nth, torn}               the process dies in the nth disk operation (of a write: after `torn` bytes)
    A path '*' means every file of the scratch directory."""

    def __init__(self, sim, faults=(), chunks=(), wchunks=()):
        self.sim, self.faults = sim, [dict(f) for f in faults]
        self.chunks, self.wchunks = list(chunks), list(wchunks)
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='dst'))
        self.old_cwd = os.getcwd()
        self.ops = 0            # operations that change the disk
        self.raws = 0
        self.opens = {}
        self.dead = False
        self.space = None
        self.delivered = []     # faults that really happened
        self.listing = 0        # seed of the order in which directories are listed (0: by name)
        self.armed = True
        self.touched = set()    # paths opened for writing, created, renamed or removed
        self.opened = []
        for f in self.faults:
            if f['kind'] == 'space':
                self.space = f['bytes']

    # --- life ------------------------------------------------------------------------------------------------
    def __enter__(self):
        os.chdir(self.root)
        builtins.open = io.open = self.open
        for m in (gzip, bz2, lzma):
            if hasattr(m, '_builtin_open'):
                m._builtin_open = self.open
        os.replace = lambda a, b, **k: self.two('replace', a, b)
        os.rename = lambda a, b, **k: self.two('rename', a, b)
        os.remove = lambda a, **k: self.one('remove', a, **k)
        os.unlink = lambda a, **k: self.one('unlink', a, **k)
        os.mkdir = lambda a, mode=0o777, **k: self.one('mkdir', a, mode, **k)
        os.rmdir = lambda a, **k: self.one('rmdir', a, **k)
        os.scandir, os.listdir = self.scandir, self.listdir
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = REAL['open']
        for m in (gzip, bz2, lzma):
            if hasattr(m, '_builtin_open'):
                m._builtin_open = REAL['open']
        for name, func in REAL.items():
            if name != 'open':
                setattr(os, name, func)
        os.chdir(self.old_cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    # --- faults ------------------------------------------------------------------------------------------------
    def rel(self, path):
        """Path below the scratch directory, or None."""
        if not isinstance(path, (str, bytes, os.PathLike)):
            return None
        path = os.path.abspath(os.fsdecode(path))
        return os.path.relpath(path, self.root) if path.startswith(self.root + os.sep) else None

    def find(self, kind, path):
        return [f for f in self.faults if f['kind'] == kind and f.get('path', '*') in ('*', path)] if self.armed else []

    def deliver(self, fault):
        if not fault.get('done'):
            fault['done'] = True
            self.sim.fault(fault['kind'] + ('/' + fault['errno'] if 'errno' in fault else ''))
            self.sim.log('fault', fault)
            self.delivered.append(fault)

    def change(self, what, path, size=0):
        """A disk operation that changes something: the place where the process may die.  Returns the bytes that still get through."""
        self.ops += 1
        self.sim.log('disk', what, path, size)
        for f in self.faults:
            if self.armed and f['kind'] == 'crash' and f['nth'] == self.ops:
                self.deliver(f)
                self.dead = True
                return min(size, f.get('torn', 0))
        return size

    def chunk(self, chunks, n):
        if not chunks:
            return n
        self.raws += 1
        k = chunks[self.raws % len(chunks)]
        if 0 < k < n:
            self.sim.count('short-transfers')
            return k
        return n

    def interrupt(self):
        for f in self.faults:
            if self.armed and f['kind'] == 'intr' and not f.get('done'):
                f['left'] = f.get('left', f['nth']) - 1
                if f['left'] < 0:
                    self.deliver(f)
                    raise InterruptedError(errno_mod.EINTR, 'Interrupted system call')

    # --- operations ------------------------------------------------------------------------------------------------
    def shuffle(self, names):
        """The order in which a directory is listed is decided by the plan."""
        names.sort(key=lambda e: os.fsdecode(e if isinstance(e, (str, bytes)) else e.name))
        if self.listing:
            random.Random(self.listing).shuffle(names)
            self.sim.count('shuffled-directories')
        return names

    def listdir(self, path='.'):
        return self.shuffle(REAL['listdir'](path))

    def scandir(self, path='.'):
        with REAL['scandir'](path) as it:
            return Entries(self.shuffle(list(it)))

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = self.rel(file)
        if path is None:
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
        nth = self.opens[path] = self.opens.get(path, 0) + 1
        for f in self.find('open', path):
            if f.get('nth', 1) == nth:
                self.deliver(f)
                raise oserror(f['errno'], os.fsdecode(file))
        writing = any(c in rawmode for c in 'wax+')
        if writing:
            if self.dead:
                return self.wrap(RawNull(), binary, 'w', buffering, encoding, errors, newline, mode)
            existed = os.path.exists(os.path.join(self.root, path))
            self.touched.add(path)
            self.change('open-' + rawmode, path)
            if self.dead:
                raise Crash()
            if 'w' in rawmode and existed:
                self.sim.count('truncations')
        else:
            self.sim.log('disk', 'open-r', path)
        raw = Raw(self, path, io.FileIO(os.path.join(self.root, path), rawmode))
        self.opened.append(raw)
        return self.wrap(raw, binary, rawmode, buffering, encoding, errors, newline, mode)

    @staticmethod
    def wrap(raw, binary, rawmode, buffering, encoding, errors, newline, mode):
        if buffering == 0 and binary:
            return raw
        size = buffering if buffering > 1 else 8192
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in rawmode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def one(self, name, path, *args, **kwargs):
        rel = self.rel(path)
        if rel is None or kwargs.get('dir_fd') is not None:
            return REAL[name](path, *args, **kwargs)
        if self.dead:
            return None
        for f in self.find(name, rel):
            self.deliver(f)
            raise oserror(f['errno'], rel)
        exists = os.path.lexists(os.path.join(self.root, rel))
        if exists == (name == 'mkdir'):
            return REAL[name](path, *args)          # fails, changes nothing
        self.change(name, rel)
        if self.dead:
            raise Crash()
        if name != 'mkdir':
            self.touched.add(rel)
        return REAL[name](path, *args)

    def two(self, name, a, b):
        ra, rb = self.rel(a), self.rel(b)
        if ra is None and rb is None:
            return REAL[name](a, b)
        if self.dead:
            return None
        for f in self.find('rename', rb or '?'):
            self.deliver(f)
            raise oserror(f['errno'], rb)
        self.change(name, f'{ra} {rb}')
        if self.dead:
            raise Crash()
        self.touched.update(x for x in (ra, rb) if x)
        return REAL[name](a, b)

    # --- what is there ------------------------------------------------------------------------------------------------
    def put(self, path, data):
        """The world outside writes a file: no faults."""
        full = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with REAL['open'](full, 'wb') as f:
            f.write(data)

    def get(self, path):
        try:
            with REAL['open'](os.path.join(self.root, path), 'rb') as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def files(self):
        out = {}
        for top, _, names in os.walk(self.root):
            for name in names:
                rel = os.path.relpath(os.path.join(top, name), self.root)
                out[rel] = self.get(rel)
        return out


class Raw(io.RawIOBase):
    """One open file of the simulated disk."""

    def __init__(self, disk, path, real):
        super().__init__()
        self.disk, self.path, self.real = disk, path, real
        self.name, self.mode = path, real.mode
        self.wrote = False

    def readable(self):
        return self.real.readable()

    def writable(self):
        return self.real.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.real.fileno()

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return self.real.seek(pos, whence)

    def tell(self):
        return self.real.tell()

    def truncate(self, size=None):
        if not self.disk.dead:
            self.disk.change('truncate', self.path)
            if self.disk.dead:
                raise Crash()
            return self.real.truncate(size)
        return size

    def readinto(self, buf):
        disk = self.disk
        disk.interrupt()
        pos, want = self.real.tell(), disk.chunk(disk.chunks, len(buf))
        for f in disk.find('read', self.path):
            if pos >= f['at']:
                disk.deliver(f)
                raise oserror(f['errno'], self.path)
            want = min(want, f['at'] - pos)
        data = self.real.read(want)
        buf[:len(data)] = data
        return len(data)

    def write(self, data):
        disk = self.disk
        data = bytes(data)
        if disk.dead:
            return len(data)
        disk.interrupt()
        pos = self.real.tell()
        n = disk.chunk(disk.wchunks, len(data))
        for f in disk.find('write', self.path):
            if pos + n > f['at']:
                n = f['at'] - pos
                if n <= 0:
                    disk.deliver(f)
                    raise oserror(f['errno'], self.path)
        if disk.space is not None and disk.armed and n > disk.space:
            n = disk.space
            if n <= 0:
                disk.deliver(next(f for f in disk.faults if f['kind'] == 'space'))
                raise oserror('ENOSPC', self.path)
        n = disk.change('write', self.path, n)
        self.wrote = True
        self.real.write(data[:n])
        if disk.space is not None and disk.armed:
            disk.space -= n
        if disk.dead:
            raise Crash()
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self.real.close()
        if self.wrote and not self.disk.dead:
            for f in self.disk.find('close', self.path):
                if not f.get('done'):
                    self.disk.deliver(f)
                    raise oserror(f['errno'], self.path)


class RawNull(io.RawIOBase):
    def writable(self):
        return True

    def write(self, data):
        return len(data)


class StreamIn(io.RawIOBase):
    """Raw input stream (pipe or socket): arbitrary chunks, not seekable, may fail at a byte position."""

    def __init__(self, sim, data, chunks=(), fail_at=None, errno='EIO'):
        super().__init__()
        self.sim, self.data, self.chunks, self.pos, self.n = sim, data, list(chunks), 0, 0
        self.fail_at, self.errno, self.failed = fail_at, errno, False

    def readable(self):
        return True

    def readinto(self, buf):
        want = len(buf)
        if self.chunks:
            self.n += 1
            want = min(want, max(1, self.chunks[self.n % len(self.chunks)]))
        if self.fail_at is not None:
            if self.pos >= self.fail_at:
                if not self.failed:
                    self.failed = True
                    self.sim.fault('stream-read/' + self.errno)
                raise oserror(self.errno)
            want = min(want, self.fail_at - self.pos)
        data = self.data[self.pos:self.pos + want]
        self.pos += len(data)
        buf[:len(data)] = data
        return len(data)


class StreamOut(io.RawIOBase):
    """Raw output stream: short writes, closed by its consumer or failing at a byte position."""

    def __init__(self, sim, chunks=(), fail_at=None, errno='EPIPE', tty=False):
        super().__init__()
        self.sim, self.chunks, self.n, self.got = sim, list(chunks), 0, bytearray()
        self.fail_at, self.errno, self.failed, self.tty = fail_at, errno, False, tty
        self.closed_by_user = False
        self.null = False           # redirected to the null device
        self.fd = 0
        self.on_pipe = None         # called when the consumer has gone away

    def writable(self):
        return True

    def isatty(self):
        return self.tty

    def fileno(self):
        if not self.fd:
            raise io.UnsupportedOperation('fileno')
        return self.fd

    def write(self, data):
        data = bytes(data)
        n = len(data)
        if self.null:
            return n
        if self.chunks:
            self.n += 1
            n = min(n, max(1, self.chunks[self.n % len(self.chunks)]))
        if self.fail_at is not None and len(self.got) + n > self.fail_at:
            n = self.fail_at - len(self.got)
            if n <= 0:
                if not self.failed:
                    self.failed = True
                    self.sim.fault('stream-write/' + self.errno)
                if self.on_pipe and self.errno == 'EPIPE':
                    self.on_pipe()
                raise oserror(self.errno)
        self.got += data[:n]
        return n

    def close(self):
        if not self.closed:
            self.closed_by_user = True
        super().close()


def text_in(raw, encoding='utf-8', newline=None):
    return io.TextIOWrapper(io.BufferedReader(raw), encoding=encoding, newline=newline)


def text_out(raw, encoding='utf-8', newline=None, size=8192):
    return io.TextIOWrapper(io.BufferedWriter(raw, size), encoding=encoding, newline=newline)


class Stdio:
    """Replaces standard input and output of the process by simulated ones."""

    def __init__(self, stdin=None, stdout=None):
        self.stdin, self.stdout = stdin, stdout

    def __enter__(self):
        self.old = sys.stdin, sys.stdout
        if self.stdin is not None:
            sys.stdin = self.stdin
        if self.stdout is not None:
            sys.stdout = self.stdout
        return self

    def __exit__(self, *exc):
        sys.stdin, sys.stdout = self.old
