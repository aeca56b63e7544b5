"""C12: local pipelines run by several threads at the same time give what they give one after another, and activities
discovered anywhere in the process have names of their own."""
import copy
import os

from .. import legacy, logs, render, runner, sched, seams
from ..client import diff
from ..core import Violation, call, oracle

ID = 'C12'
RUNS = {'quick': 13000, 'thorough': 150000}
RULE = ('one evaluation = one simulated set of 2-3 threads running generated local pipelines under a seeded line-level '
        'schedule, compared with the same pipelines run alone; distinct = different schedules and results')
REAL = ['ficus.legacy.pipelines', 'ficus.legacy.analysis', 'ficus.legacy.filtering', 'ficus.legacy.log', 'ficus.legacy.mutations']
STUB = ['thread scheduler (one thread runs at a time, hand-over at chosen lines)', 'Graphviz executable', 'raw file I/O']
ASSUMPTIONS = ['matplotlib is not thread-safe: no pyplot drawing inside concurrent pipelines',
               'third-party code runs without preemption']
COUNT_ALL = True
SHRINK_KEEP = ('s', 'kind')
STEPS = (legacy.DISCOVER + legacy.PRINT + legacy.NEWLOG + ['SaveXes', 'SaveNames', 'SaveActs', 'SaveInst', 'SaveIdx',
         'FromRepeats', 'FromTandemArrays', 'SeveralLevels', 'UntilNoMore', 'Adjust', 'NameEvents', 'PreNames', 'StartEnd'])


def generate(rng, tier):
    n = rng.weighted([(2, 4), (3, 1)])
    share = rng.weighted([(None, 3), ('pipeline', 5), ('log', 2)])
    threads = []
    al = None
    for i in range(n):
        names = legacy.gen_names(rng, most=3, longest=9, big=0, family=0)
        if threads and rng.chance(0.3 if share is None else 0.05):
            names = threads[0]['names']
        al = sorted({x for t in names for x in t}) or ['A']
        chain = legacy.gen_chain(rng, rng.int(1, 3), STEPS, al)
        for st in chain:
            if st['s'] in ('UntilNoMore', 'FromActivities'):
                st['hashes'] = False
        threads.append({'names': names, 'chain': blocks(rng, chain, al)})
    if share == 'pipeline':
        for t in threads[1:]:
            t['chain'] = threads[0]['chain']
    if share == 'log':
        for t in threads:
            t['names'] = threads[0]['names']
            t['chain'] = unedited(t['chain']) or [{'s': 'PrintInfo'}]
    return {'threads': threads, 'share': share, 'switches': sched.gen_switches(rng, 6000), 
            'hot': sched.gen_hot(rng, parts=share == 'pipeline' and rng.chance(0.6))}


def blocks(rng, chain, al, depth=0):
    """Stretches of the chain inside blocks of the composition language."""
    for i, st in enumerate(chain):
        if st['s'] in ('LogsForActivities', 'LogsWithPromote') and rng.chance(0.7):
            chain = chain[:i + 1] + [{'s': 'Block', 'kind': 'each', 'in': [legacy.gen_chain(rng, rng.int(1, 2), STEPS, al)]}] + chain[i + 1:]
            break
    if not rng.chance(0.5):
        return chain
    i = rng.int(0, len(chain) - 1)
    j = rng.int(i + 1, len(chain))
    kind = rng.pick(['parallel', 'parallel', 'copy', 'temp', 'if', 'around'])
    inner = chain[i:j]
    if depth < 2:
        inner = blocks(rng, inner, al, depth + 1)
    parts = [inner]
    if kind == 'parallel':
        parts = [legacy.gen_chain(rng, rng.int(1, 2), STEPS, al) for _ in range(rng.int(0, 2))] + [inner]
    for b in parts:
        for st in b:
            if st['s'] in ('UntilNoMore', 'FromActivities'):
                st['hashes'] = False
    return chain[:i] + [{'s': 'Block', 'kind': kind, 'in': parts}] + chain[j:]


def unedited(chain):
    out = []
    for st in chain:
        if st['s'] == 'Block':
            st = {**st, 'in': [unedited(b) for b in st['in']]}
        if st['s'] not in legacy.MUTATE:
            out.append(st)
    return out


def part(st, root):
    if st['s'] != 'Block':
        return legacy.build(st, root)
    m = legacy.mods()
    pipes = [m.pl.Pipeline(*[part(x, root) for x in b]) for b in st['in']]
    if not pipes:
        return m.pl.WithInputCopy(m.pl.Pipeline())
    last = pipes[-1]
    kind = st['kind']
    if kind == 'parallel':
        return m.pl.ParallelPipeline(*pipes)
    if kind == 'copy':
        return m.pl.WithInputCopy(last)
    if kind == 'temp':
        return m.pl.WithTempInput(lambda r: copy.copy(r), lambda a, b: b, last)
    if kind == 'if':
        return m.pl.IfPipeline(lambda r: r is not None, last)
    if kind == 'each':
        return m.hl.ExecuteWithEachActivityLog(last)
    return m.an.PrintEventLogInfoBeforeAndAfter('the steps', last)


def nodes_of(r):
    m = legacy.mods()
    out = {}

    def walk(n):
        if id(n) not in out:
            out[id(n)] = n
            for c in n.child_nodes:
                walk(c)
    if r.has_value(m.keys.activities_key):
        for n in m.acc.activities(r):
            walk(n)
    if r.has_value(m.keys.traces_activities_key):
        for t in m.acc.traces_activities(r):
            for i in t:
                walk(i.node)
    return list(out.values())


def execute(sc, ctx):
    m = legacy.mods()
    root = runner.scratch()
    os.chdir(root)
    n = len(sc['threads'])

    def dirs(tag):
        # a shared pipeline writes where it writes: files are compared only for pipelines of their own
        return [os.path.join(root, f'{tag}{0 if sc["share"] == "pipeline" else i}') for i in range(n)]

    def pipes(ds):
        out = []
        for i, t in enumerate(sc['threads']):
            if i and sc['share'] == 'pipeline':
                out.append(out[0])
            else:
                os.makedirs(ds[i], exist_ok=True)
                out.append(m.pl.Pipeline(m.st.UseExistingLog(), *[part(st, ds[i]) for st in t['chain']]))
        return out

    def log_of(i):
        return logs.build(logs.plain(sc['threads'][0 if sc['share'] == 'log' else i]['names']))

    # alone
    want = []
    with seams.World(ctx, root=root) as w:
        w.renderer = render.Renderer(ctx, w)
        ds = dirs('s')
        ps = pipes(ds)
        for i in range(n):
            k = len(w.out)
            o = call(ps[i], log_of(i))
            want.append([judge(o), ''.join(s for _, s in w.out[k:]), files(ds[i], w)])
    # together
    with seams.World(ctx, root=root) as w:
        w.renderer = render.Renderer(ctx, w)
        ds = dirs('c')
        ps = pipes(ds)
        one = log_of(0) if sc['share'] == 'log' else None
        w.sched = s = sched.Sched(ctx, sc['switches'], hot=sc.get('hot'))
        for i in range(n):
            s.spawn(f'T{i}', lambda i=i, lg=one if one is not None else log_of(i): call(ps[i], lg))
        try:
            s.run()
        finally:
            w.sched = None
        got = []
        for i, t in enumerate(s.tasks):
            if t.exc is not None:
                raise t.exc
            got.append([judge(t.result), w.text(f'T{i}'), files(ds[i], w)])
        unique = {}
        for i, t in enumerate(s.tasks):
            if not t.result.ok:
                continue
            with oracle('unique'):
                for node in nodes_of(t.result.value):
                    other = unique.setdefault(node.unique_name(), (i, node))
                    if other[1] is not node:
                        raise Violation('unique', f'two activities discovered in threads {other[0]} and {i} are both called '
                                                  f'{node.unique_name()}')
                    ctx.probe('activities')
    # several threads writing one file: only who wrote last is left, and that is not specified
    cmp_files = sc['share'] != 'pipeline'
    for i in range(n):
        a, b = want[i], got[i]
        norm = legacy.normal
        d = diff(norm(a[0]), norm(b[0]), 'result')
        if not d:
            d = diff(norm(a[1]), norm(b[1]), 'printed')
        if not d and cmp_files:
            d = diff(norm(a[2]), norm(b[2]), 'files')
        if d:
            raise Violation('interference', f'thread {i} next to others gave another result than alone: {d}')
        ctx.probe('threads compared')
        ctx.ev('outcome', i, a[0].get('failed', 'ok'))


def judge(o):
    if o.ok:
        return legacy.observe(o.value)
    return {'failed': type(o.exc).__name__}


def files(d, w):
    out = {}
    for base, _, fs in os.walk(d):
        for f in sorted(fs):
            data = w.disk.peek(os.path.join(base, f))
            out[f] = data.decode('utf-8', 'replace') if data is not None else None
    return out
