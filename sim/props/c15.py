"""C15: whatever is discovered, drawn, printed, saved, filtered or mined from a local log, and however that ends, the log itself
(and every log derived from it earlier) stays as it was."""
import os

from .. import legacy, logs, render, runner, sched, seams
from ..client import diff
from ..core import Violation, call, oracle
from .c14 import UserError, Users

ID = 'C15'
RUNS = {'quick': 24000, 'thorough': 120000}
RULE = ('one evaluation = one history of local steps over one source log with injected failures (user functions, storage, renderer, '
        'user interrupts at a source line); all logs there have been are compared with their snapshots after every step; distinct = '
        'different histories')
REAL = ['ficus.legacy.pipelines (all parts but those that edit the log by contract)', 'ficus.legacy.analysis', 'ficus.legacy.filtering',
        'ficus.legacy.log', 'ficus.legacy.discovery', 'matplotlib figure building', 'pm4py discovery']
STUB = ['matplotlib rasteriser', 'Graphviz executable', 'raw file I/O', 'randomness', 'clock']
ASSUMPTIONS = ['PreprocessEvents, PreprocessEventsNames, ApplyClassExtractor, RemoveLifecycleTransitionsAttributes, '
               'AddArtificialStartEndEvents and AddActivityNameToAllEvents edit the log they are given by contract and are left out']
COUNT_ALL = True
SHRINK_KEEP = ('s', 'ex', 'kind')
STEPS = [s for s in legacy.STEPS if s not in legacy.MUTATE]
# steps that call functions of the user
USERS = ['DiscoverRepeats', 'DiscoverTandemArrays', 'DiscoverRepeatsSets', 'DiscoverActivities', 'DiscoverActivitiesInTraces', 'InUnattached',
         'LogsForActivities', 'LogsForActivities', 'LogsWithPromote', 'LogsWithPromote', 'RemovePred', 'PosDirect', 'DfgIndirect',
         'ClassTree', 'AdjustUnattached', 'SeveralLevels', 'FromRepeats', 'UntilNoMore']
CHEAP = [s for s in STEPS if s not in legacy.DRAW and s not in legacy.NETS]


def generate(rng, tier):
    names = legacy.gen_names(rng, most=4, longest=9)
    al = sorted({n for t in names for n in t}) or ['A']
    chain = legacy.gen_chain(rng, rng.int(1, 4), STEPS if rng.chance(0.4) else CHEAP, al)
    target = rng.chance(0.35)
    if target:
        chain = legacy.gen_chain(rng, 1, USERS, al)
        for st in chain:
            if 'ex' in st and rng.chance(0.6):
                st['ex'] = rng.pick(['low', 'first'])
    for st in chain:
        if st['s'] in ('UntilNoMore', 'FromActivities'):
            st['hashes'] = False
    spec = logs.gen_log(rng, most=1, longest=1)
    spec['traces'] = []
    for t in names:
        spec['traces'].append({'attrs': {'concept:name': ['s', f'case {len(spec["traces"])}']} if rng.chance(0.5) else {},
                               'events': [{'n': n, 'p': {k: logs.gen_value(rng) for k in rng.sample(logs.KEYS, rng.int(0, 2))}} for n in t]})
    faults = [{'step': rng.int(0, len(chain) - 1), 'kind': rng.pick(['user', 'interrupt', 'interrupt', 'disk', 'renderer']),
               'at': rng.int(1, rng.pick([4, 30, 300]))} for _ in range(rng.weighted([(0, 1), (1, 3), (2, 2)]))]
    if target:
        faults.append({'step': len(chain) - 1, 'kind': rng.pick(['user', 'user', 'interrupt']), 'at': rng.int(1, rng.pick([3, 8, 40]))})
    return {'log': spec, 'chain': chain, 'faults': faults, 'whole': rng.chance(0.3), 'seed': rng.seed()}


class Watch:
    """logs there have been, as they were and with the very objects they hold"""

    def __init__(self):
        self.seen = []

    def add(self, log, what):
        if any(log is s[0] for s in self.seen):
            return
        self.seen.append((log, logs.snapshot(log), [[id(e) for e in t] for t in log], [id(t) for t in log], what,
                          [list(t) for t in log]))

    def check(self, ctx, where):
        for log, snap, evs, trs, what, _ in self.seen:
            with oracle('log'):
                d = diff(snap, logs.snapshot(log), 'log')
                if not d and (evs != [[id(e) for e in t] for t in log] or trs != [id(t) for t in log]):
                    d = 'its traces or events were replaced by other objects'
            if d:
                raise Violation('log_changed', f'{what} changed {where}: {d}')
            ctx.probe('logs compared')


def execute(sc, ctx):
    m = legacy.mods()
    root = runner.scratch()
    os.chdir(root)
    users = Users(ctx)
    watch = Watch()
    disk = [f for f in sc['faults'] if f['kind'] == 'disk']
    rend = [f for f in sc['faults'] if f['kind'] == 'renderer']
    plan = {'faults': [{'op': ['write', 'open_w'][f['at'] % 2], 'nth': 1 + f['at'] % 4, 'kind': 'ENOSPC'} for f in disk]}
    with seams.World(ctx, root=root, rand_seed=sc['seed'], disk_plan=plan) as w:
        w.renderer = render.Renderer(ctx, w, [{'nth': 1 + f['at'] % 3, 'kind': 'exit'} for f in rend])
        src = logs.build(sc['log'])
        watch.add(src, 'the source log')
        if sc['whole']:
            # one pipeline, as users write it
            parts = [legacy.build(st, root, users.wrap) for st in sc['chain']]
            p = m.pl.Pipeline(m.st.UseExistingLog(), *parts)
            for f in [x for x in sc['faults'] if x['kind'] in ('user', 'interrupt')] + [None]:
                o = faulty(ctx, users, f, p, src)
                ctx.ev('pipeline', o.brief() if o.ok else type(o.exc).__name__)
                watch.check(ctx, f'by a pipeline of {", ".join(st["s"] for st in sc["chain"])}, which {o.brief()}')
            return
        r = legacy.start(src)
        for i, st in enumerate(sc['chain']):
            part = legacy.build(st, root, users.wrap)
            o = None
            for f in [x for x in sc['faults'] if x['kind'] in ('user', 'interrupt') and x['step'] == i] + [None]:
                o = faulty(ctx, users, f, part, r)
                ctx.ev(st['s'], o.brief() if o.ok else type(o.exc).__name__)
                watch.check(ctx, f'by step {i} ({st["s"]}), which {o.brief()}')
            if not o.ok:
                return
            r = o.value
            with oracle('result'):
                watch.add(m.acc.log(r), f'the log made by step {i} ({st["s"]})')
                if r.has_value(m.keys.activities_to_logs_key):
                    for n, lg in m.acc.activities_to_logs(r).items():
                        watch.add(lg, f'the log of activity {n}')


def faulty(ctx, users, f, part, r):
    if f is None:
        return call(part, r)
    if f['kind'] == 'user':
        users.left = f['at']
        try:
            return call(part, r)
        finally:
            users.left = None
    with sched.InterruptAt(ctx, f['at']):
        return call(part, r)
