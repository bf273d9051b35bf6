# -*- coding: utf-8 -*-
"""A stand-in for the files, temporary files, archives and processes of the
system.  Paths below BASE, and relative ones, are kept in memory; nothing is
ever written elsewhere or deleted.  Any call may be made to fail."""
import builtins
import io
import os
import posixpath
import shutil
import subprocess
import sys
import tempfile

BASE = '/nonexistent/sx'
CWD = BASE + '/cwd'
TMP = BASE + '/tmp'


class Fault(OSError):
    pass


class File(object):
    """an open file: what is written can be read by others once it is
    flushed"""

    def __init__(self, world, path, mode):
        self.world = world
        self.path = path
        self.name = path
        self.mode = mode
        self.binary = 'b' in mode
        self.pos = 0
        self.pending = []
        self.writes = 0
        self.closed = False
        self.tty = False
        world.handles.append(self)

    def _empty(self):
        return b'' if self.binary else u''

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def _data(self):
        return self.world.files[self.path]

    def write(self, data):
        self._open()
        self.writes += 1
        if self.writes <= 2 or self.writes % 100 == 0:
            self.world.tick('write')
        if not any(c in self.mode for c in 'wax+'):
            raise io.UnsupportedOperation('write')
        if bool(self.world.sx.is_bytes(data)) != self.binary:
            raise TypeError('kind of data')
        self.pending.append(data)
        return len(data)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def _sync(self):
        for x in self.pending:
            if not self.binary:
                x = x.encode('utf-8')
            old = self._data()
            self.world.files[self.path] = old[:self.pos] + x + \
                old[self.pos + len(x):]
            self.pos += len(x)
        self.pending = []

    def flush(self):
        self._open()
        self.world.tick('flush')
        self._sync()

    def read(self, size=-1):
        self._open()
        self.world.tick('read')
        if not any(c in self.mode for c in 'r+'):
            raise io.UnsupportedOperation('read')
        self._sync()
        d = self._data()
        if not self.binary and self.world.sx.is_bytes(d):
            d = d.decode('utf-8')
        d = d[self.pos:] if size is None or size < 0 else \
            d[self.pos:self.pos + size]
        self.pos += len(d)
        return d

    def __iter__(self):
        data = self.read()
        return iter(data.splitlines(True))

    def seek(self, pos, whence=0):
        self._open()
        self.world.tick('seek')
        self._sync()
        self.pos = {0: 0, 1: self.pos, 2: len(self._data())}[whence] + pos
        return self.pos

    def tell(self):
        self._open()
        self._sync()
        return self.pos

    def truncate(self, size=None):
        self._open()
        self._sync()
        size = self.pos if size is None else size
        self.world.files[self.path] = self._data()[:size]

    def isatty(self):
        return self.tty

    def fileno(self):
        return 1000 + self.world.handles.index(self)

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.path in self.world.files:
            self._sync()
        if self.path in self.world.anonymous:
            del self.world.files[self.path]
        self.world.tick('close')

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *exc):
        self.close()


class Zip(object):
    """an archive being written"""

    def __init__(self, world, path, mode='r', *a, **k):
        self.world = world
        self.path = world.path(path)
        self.entries = []
        self.closed = False
        world.tick('zip')
        assert mode == 'w'
        world.files[self.path] = b''
        world.zips.append(self)

    def writestr(self, name, data, *a, **k):
        if self.closed:
            raise ValueError('closed')
        self.world.tick('zip write')
        name = getattr(name, 'filename', name)
        if self.world.sx.is_text(data):
            data = data.encode('utf-8')
        self.entries.append((name, data))

    def write(self, filename, arcname=None, *a, **k):
        f = self.world.open(filename, 'rb')
        try:
            self.writestr(arcname or filename, f.read())
        finally:
            f.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.world.tick('zip close')

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class World(object):

    def __init__(self, sx, fail=None, dirs=()):
        self.sx = sx
        self.fail = fail
        self.count = 0
        self.failed = None
        self.files = {}
        self.dirs = set([BASE, CWD, TMP])
        for d in dirs:
            self.dirs.add(self.path(d))
        self.handles = []
        self.zips = []
        self.fds = {}
        self.temps = []
        self.anonymous = set()
        self.removed = []
        self.outside = []
        self.processes = []
        self.programs = {}
        self.undo = []

    # failures

    def tick(self, what):
        self.count += 1
        if self.fail is not None and self.failed is None and \
                self.count == self.fail:
            self.failed = what
            raise Fault('failure of ' + what)

    # paths

    def path(self, p):
        if isinstance(p, bytes):
            p = p.decode('utf-8')
        return posixpath.normpath(posixpath.join(CWD, str(p)))

    def ours(self, p):
        if not isinstance(p, (str, bytes)):
            return False
        p = self.path(p)
        return p == BASE or p.startswith(BASE + '/')

    # operations

    def open(self, path, mode='r', *a, **k):
        p = self.path(path)
        self.tick('open')
        if not self.ours(path):
            self.outside.append(p)
            raise Fault('outside')
        if p in self.dirs:
            raise IsADirectoryError(p)
        if 'r' in mode:
            if p not in self.files:
                raise FileNotFoundError(p)
        elif 'x' in mode and p in self.files:
            raise FileExistsError(p)
        elif posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(p)
        else:
            if not ('a' in mode and p in self.files):
                self.files[p] = b''
        f = File(self, p, mode)
        if 'a' in mode:
            f.pos = len(self.files[p])
        return f

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.tick('mkstemp')
        p = '%s/%st%d%s' % (dir or TMP, prefix or '', len(self.temps),
                            suffix or '')
        self.temps.append(p)
        self.files[p] = b''
        fd = 500 + len(self.temps)
        self.fds[fd] = p
        return fd, p

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        self.tick('mkdtemp')
        p = '%s/d%d' % (dir or TMP, len(self.temps))
        self.temps.append(p)
        self.dirs.add(p)
        return p

    def temporary(self, mode='w+b', *a, **k):
        """without a name"""
        self.tick('temporary')
        p = TMP + '/anonymous%d' % len(self.anonymous)
        self.anonymous.add(p)
        self.files[p] = b''
        return File(self, p, mode)

    def named(self, mode='w+b', *a, **k):
        fd, p = self.mkstemp(k.get('suffix'), k.get('prefix'), k.get('dir'))
        f = self.fdopen(fd, mode)
        delete = k.get('delete', True)
        close = f.close

        def close_():
            try:
                close()
            finally:
                if delete and p in self.files:
                    self.unlink(p)
        f.close = close_
        return f

    def fdopen(self, fd, mode='r', *a, **k):
        self.tick('fdopen')
        return File(self, self.fds.pop(fd), mode)

    def close_fd(self, fd):
        self.fds.pop(fd, None)

    def unlink(self, path, *a, **k):
        p = self.path(path)
        if not self.ours(path):
            self.outside.append(p)
            raise Fault('outside')
        self.tick('unlink')
        if p not in self.files:
            raise FileNotFoundError(p)
        del self.files[p]

    def mkdir(self, path, mode=0o777, **k):
        p = self.path(path)
        if not self.ours(path):
            self.outside.append(p)
            raise Fault('outside')
        self.tick('mkdir')
        if p in self.dirs or p in self.files:
            raise FileExistsError(p)
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(p)
        self.dirs.add(p)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        p = self.path(path)
        if p in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(p)
        up = posixpath.dirname(p)
        if up not in self.dirs:
            self.makedirs(up)
        self.mkdir(p)

    def rmtree(self, path, *a, **k):
        p = self.path(path)
        if not self.ours(path):
            self.outside.append(p)
            raise Fault('outside')
        self.tick('rmtree')
        self.removed.append(p)
        for x in list(self.files):
            if x.startswith(p + '/'):
                del self.files[x]
        for x in list(self.dirs):
            if x == p or x.startswith(p + '/'):
                self.dirs.discard(x)

    def exists(self, path):
        p = self.path(path)
        return p in self.files or p in self.dirs

    # processes

    def popen(self, args, *a, **k):
        self.tick('process')
        p = Process(self, args, k)
        self.processes.append(p)
        return p

    def check_output(self, args, *a, **k):
        self.tick('process')
        name = args[0]
        if name not in self.programs:
            raise FileNotFoundError(name)
        return b''

    # putting it in place

    def __enter__(self):
        w = self

        def either(ours, real, also=lambda *a, **k: False):
            def call(path, *a, **k):
                if w.ours(path) or also(path, *a, **k):
                    return ours(path, *a, **k)
                return real(path, *a, **k)
            return call

        def writing(path, mode='r', *a, **k):
            return isinstance(path, str) and any(c in mode for c in 'wax+')
        new_open = either(self.open, io.open, writing)
        real = [
            (tempfile.mkstemp, self.mkstemp), (tempfile.mkdtemp, self.mkdtemp),
            (tempfile.TemporaryFile, self.temporary),
            (tempfile.NamedTemporaryFile, self.named),
            (os.fdopen, self.fdopen_or(os.fdopen)),
            (os.close, self.close_or(os.close)),
            (os.unlink, self.unlink), (os.remove, self.unlink),
            (os.mkdir, self.mkdir), (os.makedirs, self.makedirs),
            (os.rmdir, self.rmtree), (shutil.rmtree, self.rmtree),
            (subprocess.Popen, self.popen),
            (subprocess.check_output, self.check_output),
            (io.open, new_open),
            (os.path.exists, either(self.exists, os.path.exists)),
            (os.path.lexists, either(self.exists, os.path.lexists)),
            (os.path.isfile, either(
                lambda p: w.path(p) in w.files, os.path.isfile)),
            (os.path.isdir, either(
                lambda p: w.path(p) in w.dirs, os.path.isdir)),
            (os.path.getsize, either(
                lambda p: len(w.files[w.path(p)]), os.path.getsize)),
        ]
        where = [tempfile, os, os.path, shutil, subprocess, io, builtins]
        for n, m in list(sys.modules.items()):
            if (n == 'hwp5' or n.startswith('hwp5.')) and m is not None:
                where.append(m)
        import zipfile
        real.append((zipfile.ZipFile, lambda *a, **k: Zip(w, *a, **k)))
        where.append(zipfile)
        for m in where:
            for k, v in list(vars(m).items()):
                for a, b in real:
                    if v is a:
                        self.undo.append((m, k, v))
                        setattr(m, k, b)
        return self

    def fdopen_or(self, real):
        return lambda fd, *a, **k: self.fdopen(fd, *a, **k) \
            if fd in self.fds else real(fd, *a, **k)

    def close_or(self, real):
        return lambda fd: self.close_fd(fd) if fd in self.fds else real(fd)

    def __exit__(self, *exc):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        self.undo = []

    # what is left

    def clean(self, sx, but=()):
        """nothing temporary is left, nothing is open"""
        sx.check(not self.outside, 'nothing is written elsewhere')
        if self.failed != 'unlink':
            for t in self.temps:
                sx.check(t not in self.files and t not in self.dirs,
                         'temporary files are removed')
        for h in self.handles:
            sx.check(h.closed or h in but, 'files are closed')
        sx.check(not self.fds or self.failed == 'fdopen',
                 'descriptors are closed')
        for z in self.zips:
            sx.check(z.closed or self.failed in ('zip', 'zip write'),
                     'archives are closed')
        for p in self.processes:
            sx.check(p.waited, 'processes are waited for')


class Process(object):
    """a program: a function from what it reads to what it writes and its
    status"""

    def __init__(self, world, args, k):
        self.world = world
        self.args = [x.decode() if isinstance(x, bytes) else x for x in args]
        name = self.args[0]
        if name not in world.programs:
            raise FileNotFoundError(name)
        self.program = world.programs[name]
        self.waited = False
        self.returncode = None
        self.stdin = self.stdout = None
        self.out = k.get('stdout')
        if k.get('stdin') == subprocess.PIPE:
            self.stdin = Pipe(self)
        if self.out == subprocess.PIPE:
            world.files[TMP + '/out'] = b''
            self.stdout = File(world, TMP + '/out', 'rb')
        if self.stdin is None:
            self.run(b'')

    def run(self, data):
        out, status = self.program(self.world, self.args, data)
        self.status = status
        if self.out == subprocess.PIPE:
            self.world.files[TMP + '/out'] = out
        elif self.out is not None:
            raw(self.out, out)

    def wait(self, *a, **k):
        if self.stdin is not None and not self.stdin.closed:
            self.world.sx.fail('waiting for a program which waits for more')
        self.waited = True
        self.returncode = self.status
        return self.status

    def poll(self):
        return self.returncode

    def communicate(self, data=None):
        if self.stdin is not None:
            if data:
                self.stdin.write(data)
            self.stdin.close()
        out = self.stdout.read() if self.stdout else None
        if self.stdout:
            self.stdout.close()
        self.wait()
        return out, None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.stdout:
            self.stdout.close()
        if self.stdin:
            self.stdin.close()
        self.wait()


def raw(out, data):
    """what a process writes goes to the file, past what is buffered"""
    if isinstance(out, Pipe):
        out.write(data)
        return
    w = out.world
    pending, out.pending = out.pending, [data]
    out._sync()
    out.pending = pending


class Pipe(object):

    def __init__(self, process):
        self.process = process
        self.data = b''
        self.closed = False

    def write(self, data):
        if self.closed:
            raise ValueError('closed')
        self.process.world.tick('pipe')
        self.data = self.data + data
        return len(data)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return 900

    def close(self):
        if not self.closed:
            self.closed = True
            self.process.run(self.data)
