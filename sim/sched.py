"""Deterministic thread scheduler.

Simulated threads are real threads of which exactly one ever runs; the others are parked.  The
baton moves only where this scheduler says so: at chosen LINE events of the package under test
(sys.monitoring), when a thread blocks on a simulated lock or message, sleeps, or ends.  The
schedule is explicit data: `switches` is a list of [step, slot] - at global step `step` hand over
to the runnable thread number `slot` (modulo the runnable ones)."""
import _thread
import sys
import zlib

from . import seams
from .core import Violation, HarnessError

TOOL = 4
_mon = sys.monitoring
_ready = False


class Killed(BaseException):
    pass


def gen_switches(rng, horizon=4000, most=40):
    """A schedule: hand-overs at chosen steps, clustered (races need two close ones)."""
    n = rng.weighted([(1, 1), (3, 2), (8, 3), (20, 2), (most, 1)])
    top = rng.pick([60, 200, 600, 1500, horizon])
    out = []
    while len(out) < n:
        at = rng.int(1, top)
        out.append([at, rng.int(0, 5)])
        if rng.chance(0.5):
            out.append([at + rng.int(1, 6), rng.int(0, 5)])
    return sorted(out)


def gen_hot(rng, parts=False):
    """Hand-overs tied to places in the code instead of step numbers: every line whose place falls into the chosen
    class hands over (hit by hit, as the bits of `mask` say), so that two threads meet inside one short window."""
    if parts:
        # threads that go through the same parts hand over at the lines that belong to the parts themselves
        mod = rng.pick([1, 1, 2, 3])
        return {'mod': mod, 'sel': rng.int(0, mod - 1), 'mask': rng.pick([0xffffff, 0xffffff, rng.int(1, 0xffffff)]),
                'slot': rng.int(0, 5), 'by': 'execute'}
    if not rng.chance(0.6):
        return None
    mod = rng.pick([3, 8, 24, 64])
    return {'mod': mod, 'sel': rng.int(0, mod - 1), 'mask': rng.pick([0xffffff, 0xffffff, rng.int(1, 0xffffff), 1 << rng.int(0, 5)]),
            'slot': rng.int(0, 5), 'by': rng.weighted([('place', 4), ('function', 3), ('method', 2)])}


_places = {}


def place(code, line, by='place'):
    """A number for a place in the code that does not change when other functions of the file do; None when the place
    is not of the wanted kind: a line, a function, a line of a method, a line of what runs a part of a pipeline."""
    k = (code, line, by)
    v = _places.get(k, -1)
    if v == -1:
        if by == 'method' and code.co_varnames[:1] != ('self',) or by == 'execute' and code.co_name not in ('execute', '__call__'):
            v = None
        else:
            v = zlib.crc32((code.co_qualname if by == 'function' else f'{code.co_qualname}:{line - code.co_firstlineno}').encode())
        _places[k] = v
    return v


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.wait = None
        self.wake_at = None
        self.exc = None
        self.result = None
        self.ident = None


class Sched:
    def __init__(self, ctx, switches=(), step_limit=4_000_000, hot=None):
        self.ctx = ctx
        self.hot = hot
        self.hits = 0
        self.switches = {}
        for s, slot in switches:
            self.switches.setdefault(int(s), int(slot))
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.step_limit = step_limit
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.trace = []
        self.failed = None
        self.killing = False

    # -- identity -------------------------------------------------------------------------------
    def current(self):
        return self.by_ident.get(_thread.get_ident())

    # -- building -------------------------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            if not self.killing:
                t.result = t.fn()
        except Killed:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            t.done = True
            self.by_ident.pop(t.ident, None)
            self._handoff_from_end(t)

    # -- choosing -------------------------------------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.wait is not None:
                if t.wait():
                    out.append(t)
                continue
            if t.wake_at is not None and t.wake_at > self.ctx.now:
                continue
            out.append(t)
        return out

    def _next(self, prefer=None):
        while True:
            r = self._runnable()
            if r:
                return prefer if prefer in r else r[0]
            timers = [t.wake_at for t in self.tasks if not t.done and t.wait is None and t.wake_at is not None]
            if timers:
                self.ctx.now = min(timers)
                continue
            return None

    def _give(self, t):
        t.wait = None
        t.wake_at = None
        t.sem.release()

    def _handoff_from_end(self, t):
        if self.killing:
            self.main_sem.release()
            return
        try:
            nxt = self._next()
        except BaseException as e:  # noqa
            self.failed = e
            nxt = None
        if nxt is None:
            self.main_sem.release()
        else:
            self.trace.append((self.step, nxt.name))
            self._give(nxt)

    def _switch(self, me, nxt):
        if nxt is me:
            me.wait = None
            me.wake_at = None
            return
        self.trace.append((self.step, nxt.name))
        self._give(nxt)
        me.sem.acquire()
        if self.killing:
            raise Killed()

    # -- called from simulated threads ------------------------------------------------------------
    def yield_point(self, why='line', at=None):
        me = self.current()
        if me is None or self.killing:
            return
        self.step += 1
        if self.step > self.step_limit:
            self.failed = Violation('no_progress', f'no completion within {self.step_limit} scheduler steps')
            self._abort(me)
        slot = self.switches.get(self.step)
        if slot is None and at is not None and self.hot is not None:
            h = self.hot
            by = h.get('by', 'place')
            where = place(*at, by)
            if where is not None and where % (h['mod'] or 1) == h['sel'] % (h['mod'] or 1):
                if h['mask'] >> self.hits % 24 & 1:
                    slot = h['slot'] + self.hits
                self.hits += 1
        if slot is None:
            return
        r = [t for t in self._runnable() if t is not me]
        if not r:
            return
        self.ctx.fault('preempt')
        self._switch(me, r[slot % len(r)])

    def block(self, cond, why):
        """Park the calling thread until cond() holds."""
        me = self.current()
        me.wait = cond
        nxt = self._next()
        if nxt is None:
            self.failed = Violation('deadlock', f'all threads blocked ({why})')
            self._abort(me)
        self._switch(me, nxt)

    def delay(self, dt):
        me = self.current()
        if dt <= 0:
            return self.yield_point('delay')
        self.step += 1
        me.wake_at = self.ctx.now + dt
        nxt = self._next()
        self._switch(me, nxt)

    def _abort(self, me):
        self.killing = True
        raise Killed()

    # -- running ----------------------------------------------------------------------------------
    def run(self):
        _activate(self)
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            while len(self.by_ident) < len(self.tasks):
                seams._real['sleep'](0)
            first = self._next()
            if first is not None:
                self.trace.append((self.step, first.name))
                self._give(first)
                self.main_sem.acquire()
            while self.killing and any(not t.done for t in self.tasks):
                for t in self.tasks:
                    if not t.done:
                        t.sem.release()
                        self.main_sem.acquire()
        finally:
            _deactivate()
        self.ctx.steps += self.step
        if self.failed is not None:
            raise self.failed
        if any(not t.done for t in self.tasks):
            raise Violation('deadlock', 'threads left blocked: ' +
                            ', '.join(t.name for t in self.tasks if not t.done))
        self.ctx.interleaving = tuple(self.trace)
        self.ctx.ev('schedule', ' '.join(f'{s}:{n}' for s, n in self.trace))


# ------------------------------------------------------------------------------ line monitoring
_active = None
_interrupt = None     # (remaining lines, callback)


def _on_line(code, line):
    s = _active
    if s is not None:
        if _thread.get_ident() in s.by_ident:
            s.yield_point(at=(code, line))
        return
    i = _interrupt
    if i is not None:
        i.hit()


def _prepare():
    global _ready
    if not _ready:
        _mon.use_tool_id(TOOL, 'ficus-sim')
        _mon.register_callback(TOOL, _mon.events.LINE, _on_line)
        _ready = True


def _set(events):
    for c in seams.codes:
        _mon.set_local_events(TOOL, c, events)


_lines_on = False


def _enable():
    global _lines_on
    _prepare()
    if not _lines_on:
        _set(_mon.events.LINE)
        _lines_on = True


def lines_off():
    global _lines_on
    if _lines_on:
        _set(0)
        _lines_on = False


def _activate(s):
    global _active
    _enable()
    _active = s


def _deactivate():
    global _active
    _active = None


class InterruptAt:
    """KeyboardInterrupt (the user stops the cell) at the nth executed line of the package."""

    def __init__(self, ctx, nth, exc=KeyboardInterrupt):
        self.ctx = ctx
        self.left = nth
        self.exc = exc
        self.fired = False
        self.count = 0

    def hit(self):
        self.count += 1
        if self.fired or self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            self.fired = True
            self.ctx.fault('interrupt')
            raise self.exc()

    def __enter__(self):
        global _interrupt
        _enable()
        _interrupt = self
        return self

    def __exit__(self, *a):
        global _interrupt
        _interrupt = None
        return False
