"""Seams: every source of nondeterminism and every outside effect of the code under test goes
through a dispatcher installed here *before* the package is imported.  Outside a simulated run each
dispatcher falls through to the real thing; inside one it asks the active World."""
import builtins
import importlib.machinery
import io
import itertools
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import uuid

from . import disk as diskmod
from .core import SimCrash

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG_PARENT = os.path.join(REPO, 'src', 'python')
PKG_ROOT = os.path.join(PKG_PARENT, 'ficus') + os.sep

world = None          # the active World, or None
codes = []            # every code object of the package under test (for line-level preemption)

_real = {
    'time': time.time, 'sleep': time.sleep, 'perf_counter': time.perf_counter, 'monotonic': time.monotonic,
    'uuid4': uuid.uuid4, 'Lock': threading.Lock, 'RLock': threading.RLock, 'run': subprocess.run,
    'Popen': subprocess.Popen, 'open': builtins.open,
}
_random_names = [n for n in ('random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle',
                             'choices', 'getrandbits', 'randbytes', 'gauss', 'normalvariate', 'betavariate',
                             'expovariate') if hasattr(random, n)]
_real_random = {n: getattr(random, n) for n in _random_names}


def _from_pkg(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(PKG_ROOT)


# ---------------------------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock/RLock of the package under test: cooperates with the scheduler when a
    simulated thread uses it, is a plain lock otherwise."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._depth = 0
        self._lk = _real['RLock']() if reentrant else _real['Lock']()

    def acquire(self, blocking=True, timeout=-1):
        s = world.sched if world is not None else None
        if s is None or s.current() is None:
            return self._lk.acquire(blocking, timeout)
        me = s.current()
        if self._reentrant and self._owner is me:
            self._depth += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            s.block(lambda: self._owner is None, 'lock')
        self._owner = me
        self._depth = 1
        return True

    def release(self):
        s = world.sched if world is not None else None
        if s is None or s.current() is None:
            if self._owner is None:
                return self._lk.release()
        self._depth -= 1
        if self._depth <= 0:
            self._owner = None
            self._depth = 0

    def locked(self):
        return self._owner is not None or (not self._reentrant and self._lk.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _lock_factory(reentrant):
    name = 'RLock' if reentrant else 'Lock'

    def make(*a, **k):
        if _from_pkg():
            return SimLock(reentrant)
        return _real[name](*a, **k)
    return make


# ---------------------------------------------------------------------------------------- install
class _Collector:
    """Remember every code object of the package as its modules are loaded."""

    def __init__(self):
        self.orig = importlib.machinery.SourceFileLoader.get_code

    def install(self):
        orig = self.orig

        def get_code(loader, fullname):
            code = orig(loader, fullname)
            if code is not None and code.co_filename.startswith(PKG_ROOT):
                _collect(code)
            return code
        importlib.machinery.SourceFileLoader.get_code = get_code


def _collect(code):
    codes.append(code)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            _collect(c)


def _time_like(name):
    real_fn = _real[name]

    def fn():
        if world is not None and _from_pkg():
            return world.clock(name)
        return real_fn()
    return fn


def _sleep(sec):
    if world is not None and _from_pkg():
        return world.sleep(sec)
    return _real['sleep'](sec)


def _uuid4():
    if world is not None and _from_pkg():
        return world.uuid4()
    return _real['uuid4']()


def _open(file, *a, **k):
    w = world
    if w is not None and w.disk is not None and isinstance(file, (str, os.PathLike)) and w.disk.owns(file):
        return w.disk.open(file, *a, **k)
    return _real['open'](file, *a, **k)


def _os_wrap(name):
    orig = diskmod.real[name]
    op = {'makedirs': 'mkdir', 'mkdir': 'mkdir', 'rename': 'rename', 'replace': 'rename', 'link': 'rename'}.get(name)

    def fn(path, *a, **k):
        w = world
        if w is not None and w.disk is not None and isinstance(path, (str, os.PathLike)) and w.disk.owns(path):
            if w.disk.dead:
                if name in ('remove', 'unlink', 'rmdir', 'rename', 'replace'):
                    raise SimCrash()
            elif op:
                if op == 'rename' and a and w.disk.mounts:
                    w.disk.across(path, a[0])
                f = w.disk.fault(op)
                if f:
                    w.disk.apply(f, path)
        return orig(path, *a, **k)
    return fn


ENGINES = ('dot', 'neato', 'fdp', 'sfdp', 'circo', 'twopi', 'osage', 'patchwork')


def _is_renderer(cmd):
    try:
        return os.path.basename(str(cmd[0])) in ENGINES
    except (TypeError, IndexError):
        return False


def _run(cmd, *a, **k):
    if world is not None and _is_renderer(cmd):
        return world.renderer.run(cmd, *a, **k)
    return _real['run'](cmd, *a, **k)


class _PopenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real['Popen'])


def _popen(cmd, *a, **k):
    if world is not None and _is_renderer(cmd):
        return world.renderer.popen(cmd, *a, **k)
    return _real['Popen'](cmd, *a, **k)


def _display(*objs, **k):
    if world is not None:
        return world.display(*objs, **k)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.path.insert(0, PKG_PARENT)
    # third-party modules first, with the real primitives
    import grpc
    import IPython.core.display_functions as df
    import IPython.display as idisp
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.figure
    import matplotlib.pyplot  # noqa: F401
    import graphviz  # noqa: F401
    import ipycanvas
    import pm4py  # noqa: F401
    import shutil
    shutil._USE_CP_SENDFILE = False     # copies go through the simulated files
    import warnings
    warnings.simplefilter('ignore')

    threading.Lock = _lock_factory(False)
    threading.RLock = _lock_factory(True)
    time.time = _time_like('time')
    time.perf_counter = _time_like('perf_counter')
    time.monotonic = _time_like('monotonic')
    time.sleep = _sleep
    uuid.uuid4 = _uuid4
    builtins.open = _open
    io.open = _open
    for n in diskmod.real:
        setattr(os, n, _os_wrap(n))
    subprocess.run = _run
    subprocess.Popen = _popen
    from pm4py.visualization.petri_net import visualizer as net_visualizer

    def net_view(gviz, parameters=None, _real=net_visualizer.view):      # opens a window
        if world is not None:
            return world.display(gviz)
        return _real(gviz, parameters=parameters)
    net_visualizer.view = net_view
    df.display = _display
    idisp.display = _display

    real_insecure = grpc.insecure_channel

    def insecure_channel(target, options=None, compression=None):
        if world is not None:
            return world.net.channel(target, options)
        return real_insecure(target, options, compression)
    grpc.insecure_channel = insecure_channel

    real_savefig = matplotlib.figure.Figure.savefig
    real_show = matplotlib.figure.Figure.show

    def savefig(fig, fname, *a, **k):
        if world is not None:
            return world.savefig(fig, fname)
        return real_savefig(fig, fname, *a, **k)

    def show(fig, *a, **k):
        if world is not None:
            return world.showfig(fig)
        return real_show(fig, *a, **k)
    matplotlib.figure.Figure.savefig = savefig
    matplotlib.figure.Figure.show = show

    Canvas = ipycanvas.Canvas

    def canvas_rec(name):
        orig = getattr(Canvas, name)

        def fn(self, *a, **k):
            if world is not None:
                return world.canvas_op(self, name, a, k)
            return orig(self, *a, **k)
        return fn
    for n in ('fill_rect', 'fill_text', 'stroke_line', 'to_file'):
        setattr(Canvas, n, canvas_rec(n))

    _Collector().install()


def import_all():
    """Import every module of the package (collecting its code objects)."""
    install()
    import importlib
    import pkgutil
    import ficus
    for m in sorted(pkgutil.walk_packages(ficus.__path__, 'ficus.'), key=lambda m: m.name):
        importlib.import_module(m.name)


# ---------------------------------------------------------------------------------------- worlds
class Stdout(io.TextIOBase):
    def __init__(self, w):
        self.w = w

    def write(self, s):
        self.w.printed(s)
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True


_RandBase = random.Random


class SimRandom(_RandBase):
    """Global `random` of a simulated run.  `palette` makes the first draws low-entropy, which is
    legal for a random source and drives code that relies on draws being different into its corner."""

    def __init__(self, seed, adversarial=0, palette=(0,)):
        self.left = adversarial
        self.palette = tuple(palette) or (0,)
        self.drawn = 0
        super().__init__(seed)

    def getrandbits(self, k):
        self.drawn += 1
        if self.left > 0:
            self.left -= 1
            v = self.palette[(super().getrandbits(16)) % len(self.palette)]
            return v & ((1 << k) - 1)
        return super().getrandbits(k)

    def random(self):
        self.drawn += 1
        if self.left > 0:
            self.left -= 1
            return (self.palette[(super().getrandbits(16)) % len(self.palette)] % 256) / 256.0
        return super().random()

    _randbelow = _RandBase._randbelow_with_getrandbits


class _Names:
    """tempfile's name source: hands out the lowest name that is free right now, so a name comes
    back as soon as its file is gone (legal for a random name source, and nasty)."""

    def __init__(self, reuse):
        self.n = 0
        self.reuse = reuse

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.reuse and self.n < 2000:
            taken = os.listdir(tempfile.gettempdir())
            for i in range(100):
                name = f'sim{i:02d}'
                if not any(name in f for f in taken):
                    return name
        return f'simx{self.n:05d}'


def _reset_counters():
    """A run is a process of its own: numbers handed out so far in this one are no part of it."""
    m = sys.modules.get('ficus.legacy.analysis.patterns.patterns_models')
    for k, v in list(vars(m).items()) if m is not None else ():
        if isinstance(v, itertools.count):
            setattr(m, k, itertools.count())


class World:
    """Everything outside the code under test, for one run."""

    def __init__(self, ctx, root=None, disk_plan=None, rand_seed=0, rand_adv=0, rand_palette=(0,), names_reuse=True,
                 uuid_seed=0):
        self.ctx = ctx
        self.root = root
        self.disk = diskmod.Disk(ctx, root, disk_plan) if root else None
        self.rand = SimRandom(rand_seed, rand_adv, rand_palette)
        self.names_reuse = names_reuse
        self.uuid_rng = random.Random(uuid_seed ^ 0x5eed)
        self.uuid_base = None
        self.net = None
        self.renderer = None
        self.sched = None
        self.out = []          # (thread, text)
        self.hist = []         # printed text and callbacks, merged
        self.displayed = []    # (thread, object)
        self.figures = []      # (thread, path or None, description)
        self.canvases = {}
        self.canvas_order = []
        self.out_left = None   # writes to standard output until one fails

    # -- effects --------------------------------------------------------------------------------
    def tid(self):
        if self.sched is not None:
            c = self.sched.current()
            return c.name if c is not None else 'main'
        return 'main'

    def printed(self, s):
        t = self.tid()
        if self.out_left is not None:
            self.out_left -= 1
            if self.out_left <= 0:
                self.out_left = None
                self.ctx.fault('stdout_EPIPE')
                raise BrokenPipeError(32, 'Broken pipe')
        self.out.append((t, s))
        self.hist.append(('out', t, s))

    def text(self, tid=None):
        return ''.join(s for t, s in self.out if tid is None or t == tid)

    def display(self, *objs, **k):
        for o in objs:
            self.displayed.append((self.tid(), o))
        self.ctx.ev('display', len(objs))

    def clock(self, name):
        return self.ctx.now if name == 'time' else self.ctx.now - self.ctx.start

    def sleep(self, sec):
        self.ctx.advance(max(0.0, float(sec)))
        if self.sched is not None and self.sched.current() is not None:
            self.sched.yield_point('sleep')

    def uuid4(self):
        # unique as a whole; the ids of a process may have all but a few digits in common
        if self.uuid_base is None:
            self.uuid_base = self.uuid_rng.getrandbits(128)
            self.uuid_step = self.uuid_rng.choice([None, 1, 1 << 100, 1 << 48])
        if self.uuid_step is None:
            return uuid.UUID(int=self.uuid_rng.getrandbits(128), version=4)
        self.uuid_base = (self.uuid_base + self.uuid_step) % (1 << 128)
        return uuid.UUID(int=self.uuid_base, version=4)

    def savefig(self, fig, fname):
        from . import pictures
        desc = pictures.describe(fig)
        self.figures.append((self.tid(), str(fname), desc))
        self.ctx.ev('savefig', os.path.basename(str(fname)))
        with open(fname, 'wb') as f:
            f.write(pictures.encode(desc))

    def showfig(self, fig):
        from . import pictures
        self.figures.append((self.tid(), None, pictures.describe(fig)))
        self.ctx.ev('showfig')

    def canvas_op(self, canvas, name, a, k):
        key = id(canvas)
        if key not in self.canvases:
            self.canvases[key] = (canvas, [])
            self.canvas_order.append(key)
        self.canvases[key][1].append((name, canvas.fill_style, a))
        if name == 'to_file':
            with open(a[0], 'wb') as f:
                f.write(b'CANVAS')

    # -- activation -----------------------------------------------------------------------------
    def __enter__(self):
        global world
        assert world is None
        self._saved = (sys.stdout, sys.stderr, tempfile.tempdir, tempfile._name_sequence)
        sys.stdout = Stdout(self)
        sys.stderr = io.StringIO()
        if self.root:
            self.tmp = os.path.join(os.path.realpath(self.root), 'tmp')
            os.makedirs(self.tmp, exist_ok=True)
            tempfile.tempdir = self.tmp
            if self.disk is not None and self.disk.mounts:
                self.disk.mounts = [self.tmp]
            tempfile._name_sequence = _Names(self.names_reuse)
        for n in _random_names:
            setattr(random, n, getattr(self.rand, n))
        _reset_counters()
        world = self
        return self

    def __exit__(self, *a):
        global world
        world = None
        pyplot = sys.modules.get('matplotlib.pyplot')
        if pyplot is not None and pyplot.get_fignums():
            pyplot.close('all')
        sys.stdout, sys.stderr, tempfile.tempdir, tempfile._name_sequence = self._saved
        for n in _random_names:
            setattr(random, n, _real_random[n])
        return False
