"""
Simulated disk.

Files below a root directory are opened through `SimRaw`, a raw file object
below Python's own buffering, so every system-call-sized step (open, read,
write, close, mkdir, rename, unlink) is an operation of the simulator: it is
counted, logged, may be shortened, may fail, may interrupt or kill the process
(with a torn prefix of the write applied), and is a scheduling point.  What a
kill leaves behind is what had reached the raw file; buffered data is lost.
"""
import builtins
import errno
import io
import os
import shutil

from dst.core import HarnessError

ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES,
         'ENOENT': errno.ENOENT, 'EMFILE': errno.EMFILE,
         'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT,
         'EAGAIN': errno.EAGAIN, 'ESTALE': errno.ESTALE,
         'ETIMEDOUT': errno.ETIMEDOUT, 'ENAMETOOLONG': errno.ENAMETOOLONG,
         'EFBIG': errno.EFBIG, 'EEXIST': errno.EEXIST}
MUTATING = ('open_w', 'write', 'close_w', 'mkdir', 'rename', 'unlink',
            'truncate')

_real_open = io.open
_real = {n: getattr(os, n) for n in
         ('mkdir', 'makedirs', 'rename', 'replace', 'unlink', 'remove',
          'truncate', 'rmdir')}
_real_isdir = os.path.isdir
_real_exists = os.path.exists


class SimRaw(io.FileIO):

    def __init__(self, fs, path, mode):
        self._fs = None
        self._path = path
        self._w = any(c in mode for c in 'wax+')
        super().__init__(path, mode)
        self._fs = fs

    def write(self, b):
        fs = self._fs
        if fs is None or not fs.active:
            return super().write(b)
        mv = memoryview(b).cast('B')
        n = len(mv)
        f = fs.op('write', self._path, n)
        limit = n
        if fs.short_write and n > fs.short_write:
            limit = fs.short_write
            fs.R.faults['short_write'] += 1
        if fs.budget is not None and fs.covers(self._path):
            if fs.budget <= 0:
                fs.R.fault('ENOSPC')
                raise OSError(errno.ENOSPC, 'No space left on device (sim)')
            limit = min(limit, fs.budget)
        if f is not None:
            part = int(limit * f.get('frac', 0))
            if f['what'] == 'kill':
                if part:
                    super().write(mv[:part])
                fs.kill(f)
            if part and f.get('torn'):
                super().write(mv[:part])
            fs.throw(f)
        k = super().write(mv[:limit])
        if fs.budget is not None and fs.covers(self._path):
            fs.budget -= k
        return k

    def _rd(self, n):
        fs = self._fs
        f = fs.op('read', self._path, n)
        if f is not None:
            if f['what'] == 'kill':
                fs.kill(f)
            fs.throw(f)

    def readinto(self, b):
        fs = self._fs
        if fs is None or not fs.active:
            return super().readinto(b)
        mv = memoryview(b).cast('B')
        self._rd(len(mv))
        if fs.short_read and len(mv) > fs.short_read:
            mv = mv[:fs.short_read]
            fs.R.faults['short_read'] += 1
        return super().readinto(mv)

    def readall(self):
        fs = self._fs
        if fs is None or not fs.active:
            return super().readall()
        self._rd(-1)
        return super().readall()

    def close(self):
        fs = self._fs
        if not self.closed and fs is not None and fs.active:
            self._fs = None
            try:
                if self._w:
                    f = fs.op('close_w', self._path)
                    if f is not None:
                        if f['what'] == 'kill':
                            fs.kill(f)
                        fs.throw(f)
                else:
                    fs.op('close_r', self._path)
            finally:
                super().close()
        else:
            super().close()


class SimFS(object):

    """
    faults: list of dicts
        {'cat': [...] or 'mut' or 'any', 'nth': k, 'what': errno name | 'KI' |
         'SE' | 'kill', 'frac': share of a torn write, 'torn': bool,
         'persist': bool (every later matching operation fails as well),
         'path': substring the path has to contain}
    """

    def __init__(self, R, root, faults=(), short_write=0, short_read=0,
                 budget=None, budget_path='', yielder=None, on_kill=None,
                 logops=True):
        self.R = R
        self.root = os.path.realpath(root)
        self.faults = [dict(f, seen=0, fired=0) for f in faults]
        self.short_write = short_write
        self.short_read = short_read
        self.budget = budget
        self.budget_path = budget_path
        self.active = False
        self.yielder = yielder
        self.on_kill = on_kill
        self.logops = logops
        self.n = 0
        self.nmut = 0
        self.counts = {}
        self.interrupt = None
        self.hooks = []

    # -- faults ------------------------------------------------------------
    def covers(self, path):
        return self.budget_path in str(path)

    def op(self, cat, path, n=None):
        path = str(path)
        self.n += 1
        self.counts[cat] = self.counts.get(cat, 0) + 1
        if cat in MUTATING:
            self.nmut += 1
        rel = os.path.relpath(os.path.realpath(path), self.root)
        if self.logops:
            self.R.log('fs', cat, rel, '' if n is None else n)
        for h in self.hooks:
            h(cat, rel)
        if self.yielder is not None:
            self.yielder('fs:' + cat)
        for f in self.faults:
            c = f.get('cat', 'any')
            if not (c == 'any' or (c == 'mut' and cat in MUTATING) or
                    cat in c):
                continue
            if f.get('path') and f['path'] not in rel:
                continue
            f['seen'] += 1
            if f['seen'] == f['nth'] or (f.get('persist') and
                                         f['seen'] > f['nth']):
                f['fired'] += 1
                f.setdefault('hits', []).append(rel)
                self.R.fault('%s@%s' % (f['what'], cat))
                return f
        return None

    def throw(self, f):
        w = f['what']
        if w == 'KI':
            self.interrupt = KeyboardInterrupt('simulated interrupt')
            raise self.interrupt
        if w == 'SE':
            self.interrupt = SystemExit(3)
            raise self.interrupt
        if w == 'MEM':
            raise MemoryError('simulated allocation failure')
        raise OSError(ERRNO[w], os.strerror(ERRNO[w]) + ' (sim)')

    def kill(self, f):
        if self.on_kill is not None:
            self.on_kill(f)
        os._exit(77)

    @property
    def fired(self):
        return sum(f['fired'] for f in self.faults)

    def clear(self):
        self.faults = []
        self.budget = None

    # -- seam --------------------------------------------------------------
    def _inside(self, path):
        if not self.active or isinstance(path, int):
            return False
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self._inside(file) or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        path = os.fspath(file)
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '')
        wr = any(c in rawmode for c in 'wax+')
        f = self.op('open_w' if wr else 'open_r', path)
        if f is not None:
            if f['what'] == 'kill':
                self.kill(f)
            self.throw(f)
        raw = SimRaw(self, path, rawmode)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif wr:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                buffering == 1)
        text.mode = mode
        return text

    def _wrap(self, name, cat):
        real = _real[name]

        def func(path, *args, **kw):
            if self._inside(path):
                f = self.op(cat, path)
                if f is not None:
                    if f['what'] == 'kill':
                        self.kill(f)
                    self.throw(f)
            return real(path, *args, **kw)
        func.__name__ = name
        return func

    def makedirs(self, name, mode=0o777, exist_ok=False):
        """Same algorithm as os.makedirs, with every mkdir an operation."""
        head, tail = os.path.split(name)
        if not tail:
            head, tail = os.path.split(head)
        if head and tail and not os.path.exists(head):
            try:
                self.makedirs(head, exist_ok=exist_ok)
            except FileExistsError:
                pass
            if tail == os.curdir:
                return
        try:
            os.mkdir(name, mode)
        except OSError:
            if not exist_ok or not _real_isdir(name):
                raise

    def _stat(self, real, cat):
        def func(path):
            res = real(path)
            if self.yielder is not None and self._inside(path):
                if self.logops:
                    self.R.log('fs', cat, os.path.relpath(
                        os.path.realpath(path), self.root), res)
                self.yielder('fs:' + cat)
            return res
        return func

    def __enter__(self):
        self.active = True
        builtins.open = io.open = self.open
        os.mkdir = self._wrap('mkdir', 'mkdir')
        os.makedirs = self.makedirs
        os.rename = self._wrap('rename', 'rename')
        os.replace = self._wrap('replace', 'rename')
        os.unlink = self._wrap('unlink', 'unlink')
        os.remove = self._wrap('remove', 'unlink')
        os.truncate = self._wrap('truncate', 'truncate')
        os.path.isdir = self._stat(_real_isdir, 'isdir')
        os.path.exists = self._stat(_real_exists, 'exists')
        return self

    def __exit__(self, *args):
        self.active = False
        builtins.open = io.open = _real_open
        for n in ('mkdir', 'makedirs', 'rename', 'replace', 'unlink',
                  'remove', 'truncate'):
            setattr(os, n, _real[n])
        os.path.isdir = _real_isdir
        os.path.exists = _real_exists


# -- HDF5 through the simulated disk ---------------------------------------

def install_h5(fs):
    """Let h5py do its I/O through Python file objects of the simulated disk.

    Only for files below the root of the simulated disk.
    """
    import h5py
    real = h5py.File

    class SimH5File(real):

        def __init__(self, name, mode='r', **kw):
            self._simfo = None
            if not fs._inside(name):
                super().__init__(name, mode, **kw)
                return
            if mode == 'r':
                pm = 'rb'
            elif mode in ('a', 'r+') and _real_exists(name) and \
                    os.path.getsize(name):
                pm = 'r+b'
            elif mode == 'r+':
                raise FileNotFoundError(name)
            elif mode in ('w-', 'x') and _real_exists(name):
                raise FileExistsError(name)
            else:
                pm = 'w+b'
                mode = 'w'
            fo = fs.open(name, pm)
            try:
                super().__init__(fo, mode, **kw)
            except BaseException:
                fo.close()
                raise
            self._simfo = fo

        def close(self):
            try:
                super().close()
            finally:
                fo, self._simfo = self._simfo, None
                if fo is not None:
                    fo.close()

    h5py.File = SimH5File

    def restore():
        h5py.File = real
    return restore


# -- observation ------------------------------------------------------------

def snapshot(root):
    """Bytes of all files and names of all directories below root."""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel != '.':
            out[rel + '/'] = None
        for f in files:
            with _real_open(os.path.join(d, f), 'rb') as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def copytree(src, dst):
    shutil.copytree(src, dst)


def rmtree(path):
    path = os.path.realpath(path)
    if not path.startswith('/tmp/rfdst-'):
        raise HarnessError('refusing to remove %s' % path)
    shutil.rmtree(path, ignore_errors=True)
