"""Simulated disk: real files inside a per-run scratch directory, reached through a raw-I/O layer
the simulator owns.  It decides chunking (short reads and writes), errors (ENOSPC, EIO, EACCES,
EMFILE), process crashes in the middle of a write, platform text encoding and newlines."""
import builtins
import errno
import io
import os

from .core import SimCrash

real_open = builtins.open
real = {n: getattr(os, n) for n in ('makedirs', 'mkdir', 'rename', 'replace', 'remove', 'unlink', 'link', 'rmdir')}

ERR = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE,
       'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS}


class SimRaw(io.RawIOBase):
    """FileIO on a real scratch file with injected behaviour.  Reads and writes are chunked by the
    plan; a fault fires at the nth raw operation of its kind."""

    def __init__(self, disk, path, mode, opener=None):
        self.disk = disk
        self.path = path
        self.name = path
        self.mode = mode
        self._f = io.FileIO(path, mode, opener=opener)
        self._armed = True

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if self.disk.dead:
            return 0
        return self._f.truncate(size)

    def readinto(self, b):
        d = self.disk
        f = d.fault('read')
        if f:
            d.apply(f, self.path)
        mv = memoryview(b)
        n = len(mv)
        if d.rchunk and n > d.rchunk:
            d.ctx.fault('short_read')
            n = d.rchunk
        return self._f.readinto(mv[:n])

    def write(self, b):
        d = self.disk
        data = bytes(b)
        if d.dead:
            return len(data)
        f = d.fault('write')
        if f:
            keep = int(len(data) * f.get('part', 0)) if f.get('part', 0) < 1 else len(data)
            if keep:
                # a failing write may have changed the file but not the offset
                at = self._f.tell() if self._f.seekable() else None
                self._f.write(data[:keep])
                if at is not None:
                    self._f.seek(at)
                d.wrote(self.path, keep)
            d.apply(f, self.path)
        n = len(data)
        if d.wchunk and n > d.wchunk:
            d.ctx.fault('short_write')
            n = d.wchunk
        k = self._f.write(data[:n])
        d.wrote(self.path, k)
        return k

    def close(self):
        if self.closed:
            return
        d = self.disk
        try:
            if self._armed and self._f.writable() and not d.dead:
                self._armed = False
                f = d.fault('close')
                if f:
                    self._f.close()
                    super().close()
                    d.apply(f, self.path)
        finally:
            self._f.close()
            super().close()
            d.closed_one(self.path)


class Disk:
    """plan: {locale, newline, wchunk, rchunk, bufsize, faults: [{op, nth, kind, part, sticky}]}"""

    def __init__(self, ctx, root, plan=None):
        plan = plan or {}
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.locale = plan.get('locale', 'utf-8')
        self.newline = plan.get('newline', None)
        self.wchunk = plan.get('wchunk')
        self.rchunk = plan.get('rchunk')
        self.bufsize = plan.get('bufsize')
        self.mounts = plan.get('mounts')       # temporary storage is a file system of its own
        self.faults = [dict(f) for f in plan.get('faults', [])]
        self.counts = {}
        self.dead = False
        self.armed = True
        self.open_files = {}
        self.fired = []
        self.sticky = None

    # -- fault plan ---------------------------------------------------------------------------
    def owns(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def fault(self, op):
        if not self.armed:
            return None
        n = self.counts[op] = self.counts.get(op, 0) + 1
        if self.sticky and op in ('write', 'close', 'open_w', 'mkdir'):
            return dict(self.sticky, part=0) if op != 'close' else None
        for f in self.faults:
            if f['op'] == op and f['nth'] == n:
                return f
        return None

    def across(self, src, dst):
        """renaming works within a file system only"""
        on = lambda p: [m for m in self.mounts if os.path.abspath(p).startswith(m + os.sep)]
        if on(src) != on(dst):
            self.ctx.fault('disk_rename_EXDEV')
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(src), None, str(dst))

    def plan_fault(self, op, kind, ahead=1):
        """one more fault, at the `ahead`th operation of that kind from now on"""
        self.faults.append({'op': op, 'nth': self.counts.get(op, 0) + ahead, 'kind': kind})

    def apply(self, f, path):
        kind = f['kind']
        self.ctx.fault(f'disk_{f["op"]}_{kind}' if not f.get('_again') else f'disk_again_{kind}')
        self.fired.append((f['op'], kind))
        if kind == 'crash':
            self.dead = True
            raise SimCrash()
        if kind == 'interrupt':
            raise KeyboardInterrupt()
        if f.get('sticky') and not self.sticky:
            self.sticky = dict(f, _again=True)
        raise OSError(ERR[kind], os.strerror(ERR[kind]), str(path))

    def wrote(self, path, n):
        self.ctx.probe('disk_bytes_written', n)

    def closed_one(self, path):
        self.open_files[path] = self.open_files.get(path, 0) - 1
        if self.open_files[path] <= 0:
            del self.open_files[path]

    # -- open ---------------------------------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = os.path.abspath(os.fspath(file))
        text = 'b' not in mode
        rawmode = mode.replace('b', '').replace('t', '')
        writing = any(c in rawmode for c in 'wax+')
        if self.dead:
            raise SimCrash()
        f = self.fault('open_w' if writing else 'open_r')
        if f:
            self.apply(f, path)
        raw = SimRaw(self, path, rawmode, opener)
        self.open_files[path] = self.open_files.get(path, 0) + 1
        size = self.bufsize or io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return raw
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        if encoding is None or encoding == 'locale':
            encoding = self.locale
        if newline is None and writing and self.newline:
            newline = self.newline
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)

    # -- harness side --------------------------------------------------------------------------
    def peek(self, path):
        try:
            with real_open(path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def listing(self):
        out = []
        for d, _, files in os.walk(self.root):
            for n in files:
                out.append(os.path.relpath(os.path.join(d, n), self.root))
        return sorted(out)

    def restart(self):
        """The process is started again: only what reached the files survives."""
        self.dead = False
        self.sticky = None
        self.faults = []
        self.open_files = {}
