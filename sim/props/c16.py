"""C16: the same steps on the same local log give the same results, printed text, pictures and files in every process and after
every history."""
import json
import os
import re
import subprocess
import sys

from .. import legacy, logs, render, runner, sched, seams
from ..client import diff
from ..core import Ctx, HarnessError, Violation, call, oracle

ID = 'C16'
RUNS = {'quick': 10000, 'thorough': 200000}
RULE = ('one evaluation = one chain of local steps run three times: fresh, after earlier (interrupted) use of the same part objects with '
        'other random and unique numbers, and in another process with another string hash seed; distinct = different histories')
REAL = ['ficus.legacy.pipelines', 'ficus.legacy.analysis', 'ficus.legacy.filtering', 'ficus.legacy.log', 'ficus.legacy.mutations',
        'the interpreter\'s string hashing in two processes', 'matplotlib figure building', 'graphviz DOT building']
STUB = ['randomness and uuid source', 'matplotlib rasteriser', 'Graphviz executable', 'raw file I/O', 'clock']
ASSUMPTIONS = ['colours are random by design and compared up to renaming', 'numbers in Activity_<n> go on counting within a process',
               'nets found by pm4py are not compared']
COUNT_ALL = True
SHRINK_KEEP = ('s', 'ex', 'kind', 'hashseed')
STEPS = [s for s in legacy.STEPS if s not in legacy.NETS and s not in ('PosEntropyHist',)]
CHEAP = [s for s in STEPS if s not in legacy.DRAW]
NAMES = [['Alpha', 'Beta', 'Gamma', 'Delta'], ['AB', 'Ab', 'aB', 'ab', 'b'], ['Ü', 'имя', '日本'], ['x1', 'x2', 'x3', 'x4', 'y1', 'y2', 'y3']]


def generate(rng, tier):
    al = rng.pick(NAMES) if rng.chance(0.6) else None
    names = legacy.gen_names(rng, most=4, longest=rng.pick([8, 14]), alphabet=al)
    other = legacy.gen_names(rng, most=3, longest=8, alphabet=al)
    if rng.chance(0.5):
        # the same shape, other contents
        pool = al or sorted({n for t in names for n in t})
        other = [[rng.pick(pool) for _ in t] for t in names]
    have = sorted({n for t in names for n in t}) or ['A']
    chain = legacy.gen_chain(rng, rng.int(1, 4), CHEAP if rng.chance(0.75) else STEPS, have)
    for st in chain:
        if st['s'] in ('UntilNoMore', 'FromActivities', 'ActsGraph'):
            st['hashes'] = False
    return {'names': names, 'other': other, 'chain': chain, 'inplace': rng.chance(0.35), 'hashseed': rng.pick([11, 4242]), 'seeds': [rng.seed() for _ in range(3)],
            'before': [{'at': rng.pick([rng.int(1, 20), rng.int(1, 400), 10 ** 9]), 'own': rng.chance(0.35)} for _ in range(rng.int(0, 2))]}


_color = re.compile(r'#[0-9A-Fa-f]{6}\b')


def renamed(x):
    """colours renamed in order of appearance"""
    seen = {'#000000': '#000000', '#FFFFFF': '#FFFFFF'}
    sub = lambda m: seen.setdefault(m.group(0).upper(), f'#{len(seen)}')

    def walk(v):
        if isinstance(v, str):
            return _color.sub(sub, v)
        if isinstance(v, (list, tuple)):
            return [walk(y) for y in v]
        if isinstance(v, dict):
            return {k: walk(v[k]) for k in v}
        return v
    return walk(x)


def observe(sc, ctx, root, seed, before=()):
    """all that can be seen of one run of the chain"""
    m = legacy.mods()
    os.makedirs(os.path.join(root, 'o'), exist_ok=True)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        with seams.World(ctx, root=root, rand_seed=seed, uuid_seed=seed) as w:
            w.renderer = render.Renderer(ctx, w)
            parts = [legacy.build(st, 'o') for st in sc['chain']]
            p = m.pl.Pipeline(m.st.UseExistingLog(), *parts)
            lg = logs.build(logs.plain(sc['other'] if before else sc['names']))
            refill = logs.Refill(lg)
            for b in before:
                spec = logs.plain(sc['names'] if b['own'] else sc['other'])
                # the same log object, edited in place, or another one
                lg = refill(spec) if sc['inplace'] else logs.build(spec)
                with sched.InterruptAt(ctx, b['at']):
                    call(p, lg)
            old = files_in(w, root)
            k, kf = len(w.out), len(w.figures)
            spec = logs.plain(sc['names'])
            o = call(p, refill(spec) if sc['inplace'] else logs.build(spec))
            if o.crashed:
                raise HarnessError('crash')
            out = {'text': ''.join(s for _, s in w.out[k:]),
                   'result': legacy.observe(o.value) if o.ok else None,
                   'error': None if o.ok else type(o.exc).__name__,
                   'figures': renamed([[f[1], f[2]] for f in w.figures[kf:]])}
            out['files'] = files_in(w, root) if o.ok else None
            out['old'] = old
            return json.loads(json.dumps(legacy.normal(out)))
    finally:
        os.chdir(cwd)


def files_in(w, root):
    files = {}
    for base, _, fs in os.walk('o'):
        for f in sorted(fs):
            data = w.disk.peek(os.path.join(root, base, f))
            files[os.path.join(base, f)] = data.decode('utf-8', 'replace') if data is not None else None
    return {n: one_picture(t) for n, t in sorted(files.items())}


def one_picture(t):
    if t is not None and t.startswith('PICTURE '):
        return renamed(t)
    return t


# ---- the other process ------------------------------------------------------------------------------------
_helpers = {}


def helper(seed):
    h = _helpers.get((os.getpid(), seed))
    if h is None or h.poll() is not None:
        env = dict(os.environ, SIM_HASHSEED=str(seed))
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        h = seams._real['Popen']([sys.executable, os.path.join(here, 'check.py'), ID, '--helper'], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, env=env, cwd=here)
        _helpers[os.getpid(), seed] = h
    return h


def serve():
    """--helper: answers observations on stdout"""
    seams.import_all()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            a = {'ok': observe(q['sc'], Ctx(), q['root'], q['seed'])}
            from matplotlib import pyplot
            pyplot.close('all')
        except BaseException as e:  # noqa
            a = {'bad': f'{type(e).__name__}: {e}'}
        out.write(json.dumps(a) + '\n')
        out.flush()
    return 0


def elsewhere(sc, root, seed):
    h = helper(sc['hashseed'])
    h.stdin.write((json.dumps({'sc': sc, 'root': root, 'seed': seed}) + '\n').encode())
    h.stdin.flush()
    line = h.stdout.readline()
    if not line:
        raise HarnessError('the other process ended')
    a = json.loads(line)
    if 'bad' in a:
        raise HarnessError('in the other process: ' + a['bad'])
    return a['ok']


def cleanup():
    from matplotlib import pyplot
    pyplot.close('all')


def execute(sc, ctx):
    root = runner.scratch()
    dirs = [os.path.join(root, d) for d in 'abc']
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    with oracle('result'):
        a = observe(sc, ctx, dirs[0], sc['seeds'][0])
        b = observe(sc, ctx, dirs[1], sc['seeds'][1], sc['before'])
    c = elsewhere(sc, dirs[2], sc['seeds'][2])
    ctx.fault('hash_seed')
    ctx.fault('other_randomness')
    for x in (a, b, c):
        old = x.pop('old')
        if x['files'] is not None and a['files'] is not None:
            # what earlier uses left there and this one did not touch
            x['files'] = {n: t for n, t in x['files'].items() if n in a['files'] or old.get(n) != t}
    for x, what in ((b, 'after other use of the same parts'), (c, 'in another process')):
        d = diff(a, x, 'observation')
        if d:
            raise Violation('differs', f'{", ".join(st["s"] for st in sc["chain"])} on the same log gives something else {what}: {d}')
        ctx.probe('compared')
    ctx.ev(a['error'] or 'ok', json.dumps(a, sort_keys=True))
