"""Core of the deterministic simulator: seeds, run context, violations, replay.

One integer decides a run.  `generate(rng)` turns that integer into a *scenario*: a
plain JSON value holding the workload, the fault plan and the schedule.  `execute(scenario,
ctx)` is a pure function of the scenario and of the code under test.  A replay file is a
scenario, so a minimised scenario replays exactly.
"""
import contextlib
import hashlib
import json
import random
import traceback

_RealRandom = random.Random


def derive(*parts) -> int:
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Rng:
    """Thin wrapper over a private Mersenne twister (never the global one)."""

    def __init__(self, seed: int):
        self.r = _RealRandom(seed)

    def int(self, lo, hi):
        return self.r.randint(lo, hi)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.r.random() * total
        for v, w in pairs:
            x -= w
            if x <= 0:
                return v
        return pairs[-1][0]

    def sample(self, seq, k):
        return self.r.sample(list(seq), k)

    def shuffle(self, seq):
        self.r.shuffle(seq)
        return seq

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.r.random() < p]

    def seed(self):
        return self.r.getrandbits(48)


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, message: str):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message


class SimCrash(BaseException):
    """The simulated process dies here: nothing of the code under test may go on."""


class HarnessError(Exception):
    pass


class Ctx:
    """Per-run recorder: history, fault counters, probes, simulated clock."""

    def __init__(self):
        self.log = []
        self.faults = {}
        self.probes = {}
        self.now = 1_700_000_000.0
        self.start = self.now
        self.interleaving = None
        self.steps = 0

    def ev(self, *parts):
        self.log.append(' '.join(str(p) for p in parts))

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log.append(f'fault {kind}')

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def advance(self, dt):
        self.now += dt

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode('utf-8', 'surrogatepass')).hexdigest()[:16]

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message() if callable(message) else message)


@contextlib.contextmanager
def oracle(kind):
    """Oracle code reading what the code under test produced: a value it cannot even be read
    from (missing attribute, wrong type) is itself a wrong result."""
    try:
        yield
    except Violation:
        raise
    except (AttributeError, KeyError, IndexError, TypeError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        raise Violation(kind, f'malformed result: {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}')


class Outcome:
    """What one call into the code under test did: a value, an exception or a simulated crash."""

    def __init__(self, value=None, exc=None, crashed=False):
        self.value = value
        self.exc = exc
        self.crashed = crashed

    @property
    def ok(self):
        return self.exc is None and not self.crashed

    def brief(self):
        if self.crashed:
            return 'crashed'
        if self.exc is not None:
            return f'raised {type(self.exc).__name__}: {self.exc}'
        return 'returned'


def call(fn, *args, **kwargs) -> Outcome:
    try:
        return Outcome(value=fn(*args, **kwargs))
    except SimCrash:
        return Outcome(crashed=True)
    except (Violation, HarnessError):
        raise
    except (Exception, KeyboardInterrupt) as e:
        return Outcome(exc=e)


def where(exc) -> str:
    tb = traceback.extract_tb(exc.__traceback__)
    return ' <- '.join(f'{f.filename.rsplit("/", 1)[-1]}:{f.lineno}' for f in reversed(tb[-3:]))


def canon(x) -> str:
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=str)
