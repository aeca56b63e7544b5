"""C11: copies and converted logs are complete and independent; isolated branches leave the original result as it was
and see nothing of each other."""
import copy
import os

from .. import legacy, logs, render, runner, sched, seams
from ..client import diff
from ..core import Violation, call, canon, oracle

ID = 'C11'
RUNS = {'quick': 15000, 'thorough': 400000}
RULE = ('one evaluation = one simulated history: either copies, conversions and edits of event logs against a reference heap, or '
        'isolated branches of built-in parts with injected failures; distinct = different histories')
REAL = ['ficus.legacy.log', 'ficus.legacy.pipelines (blocks and all built-in parts that do not edit the log in place)', 'pm4py event log objects']
STUB = ['Graphviz executable', 'matplotlib rasteriser', 'raw file I/O', 'randomness']
ASSUMPTIONS = ['parts documented to edit the log in place are not used inside isolated branches',
               'what a shallow copy shares with its source below the first level is not judged after an edit through it']
COUNT_ALL = True
SHRINK_KEEP = ('op', 's', 'kind', 'how')

BRANCH = [s for s in legacy.STEPS if s not in legacy.MUTATE and s not in ('PosEntropyHist', 'NetInductive', 'NetHeuristic')]


# ---- scenarios --------------------------------------------------------------------------------------
def generate(rng, tier):
    return gen_copies(rng) if rng.chance(0.6) else gen_branches(rng)


def gen_copies(rng):
    ops = []
    for _ in range(rng.int(2, 9)):
        k = rng.weighted([('copy', 3), ('deepcopy', 4), ('to', 2), ('from', 2), ('edit', 7), ('trace', 1), ('event', 1)])
        op = {'op': k, 'i': rng.int(0, 9)}
        if k == 'edit':
            op.update(where=[rng.int(0, rng.pick([9, 99])) for _ in range(2)], how=rng.pick(
                ['ev_set', 'ev_all', 'ev_del', 'ev_under', 'ev_under_in', 'ev_list', 'tr_list', 'log_list', 'tr_append', 'tr_del', 'tr_insert', 'tr_replace', 'tr_attr', 'log_append', 'log_del',
                 'log_attr', 'log_ext', 'log_cls', 'log_prop', 'log_glob', 'log_cls_in', 'log_ext_in', 'log_glob_in']),
                v=logs.gen_value(rng), k=rng.pick(logs.KEYS + ['concept:name', 'new']))
            if op['how'] in ('ev_set',) and op['k'] == 'concept:name':
                op['v'] = ['s', rng.pick(logs.NAMES)]
        ops.append(op)
    spec = logs.gen_log(rng, most=3, longest=4, big=0.04)
    return {'kind': 'copies', 'log': spec, 'under': rng.chance(0.4), 'lists': rng.chance(0.5), 'ops': ops}


def gen_branches(rng):
    names = legacy.gen_names(rng, most=4, longest=10)
    al = sorted({n for t in names for n in t}) or ['A']
    pre = legacy.gen_chain(rng, rng.int(0, 2), [s for s in legacy.DISCOVER if s not in ('ActivityGraph',)], al) if rng.chance(0.8) else []
    have = set()
    for st in pre:
        have |= set(legacy.STEPS[st['s']][1])
    bs = []
    for _ in range(rng.weighted([(1, 3), (2, 4), (3, 2)])):
        bs.append(chain_from(rng, rng.int(1, 3), BRANCH, al, have))
    out = {'kind': 'branches', 'names': names, 'pre': pre, 'bs': bs, 'how': rng.pick(['copy', 'par', 'par', 'both']),
           'fault': rng.weighted([(None, 4), ('interrupt', 2), ('renderer', 1), ('disk', 1)]), 'at': rng.int(1, 400),
           'seed': rng.seed()}
    fix_hashes(out['pre'])
    for b in bs:
        fix_hashes(b)
    return out


def fix_hashes(chain):
    """names built from a process-wide counter would order later discoveries: keep to real names"""
    for st in chain:
        if st['s'] in ('UntilNoMore', 'FromActivities'):
            st['hashes'] = False


def chain_from(rng, n, allowed, al, have):
    """like gen_chain, but the values in `have` are there already"""
    out = []
    have = set(have)
    while len(out) < n:
        s = rng.pick(allowed)
        needs, gives = legacy.STEPS[s]
        if any(x.strip('!') not in have for x in needs):
            continue
        out.append(legacy.gen_step(rng, s, al))
        have = set() if 'newlog' in gives else have | set(gives)
    return out


# ---- execution --------------------------------------------------------------------------------------
def execute(sc, ctx):
    if sc['kind'] == 'copies':
        return run_copies(sc, ctx)
    return run_branches(sc, ctx)


LIST = 'list of values'


def model_of(spec, under, lists=False):
    """plain nested structure; the model of a log is snapshot data of its own"""
    tr = []
    ls = lambda: {LIST: ['l', [['i', 1], ['l', [['s', 'x']]]]]} if lists else {}
    for t in spec['traces']:
        evs = []
        for i, e in enumerate(t['events']):
            d = {'concept:name': ['s', e['n']]} if e['n'] is not None else {}
            d.update(ls())
            d.update({k: logs.snap_value(logs.value(v)) for k, v in e.get('p', {}).items()})
            if under and i % 2 == 0:
                d['UnderlyingEvents'] = ['l', [['event', {'concept:name': ['s', 'u1']}], ['event', {'concept:name': ['s', 'u2']}]]]
            evs.append(d)
        tr.append({'attrs': {**{k: logs.snap_value(logs.value(v)) for k, v in t.get('attrs', {}).items()}, **ls()}, 'events': evs})
    sd = lambda d: {k: logs.snap_value(logs.value(v)) for k, v in d.items()}
    return {'traces': tr, 'attrs': dict(spec.get('attrs', {})), 'ext': copy.deepcopy(spec.get('ext', {})),
            'cls': copy.deepcopy(spec.get('cls', {})), 'props': {**sd(spec.get('props', {})), **ls()},
            'glob': {k: sd(v) for k, v in spec.get('glob', {}).items()}}


def run_copies(sc, ctx):
    el, fn, cn = logs.api()
    from ficus.legacy.log import pm4py_converters as pc
    log = logs.build(sc['log'])
    if sc['under']:
        for t in log:
            for i, e in enumerate(t):
                if i % 2 == 0:
                    e['UnderlyingEvents'] = [el.MyEvent({cn: 'u1'}), el.MyEvent({cn: 'u2'})]
    if sc.get('lists'):
        for d in [log.properties] + [t.attributes for t in log] + [e.payload for t in log for e in t]:
            d[LIST] = [1, ['x']]
    # a root: [kind, real object, model, group]; roots of one group share parts below their first level
    roots = [['log', log, model_of(sc['log'], sc['under'], sc.get('lists')), 0]]
    groups = 1
    with seams.World(ctx) as w:
        check_all(ctx, roots, 'at the start')
        for n, op in enumerate(sc['ops']):
            kind, real, model, grp = roots[op['i'] % len(roots)]
            where = f'after step {n} ({op["op"]} {op.get("how", "")})'
            ctx.ev(op['op'], op['i'] % len(roots), op.get('how', ''), kind)
            if op['op'] == 'edit':
                affected = edit(op, kind, real, model)
                if affected is None:
                    continue
                ctx.probe('edits')
                if affected == 'deep':
                    # what is shared below the first level is not specified: forget the other members of the group
                    roots[:] = [r for r in roots if r[3] != grp or r[1] is real]
            elif op['op'] in ('trace', 'event'):
                if kind == 'log' and len(real) and op['op'] == 'trace':
                    j = op['i'] % len(real)
                    sub = call(copy.deepcopy, real[j])
                    if not sub.ok:
                        raise Violation('copy', f'copying a trace {sub.brief()}')
                    roots.append(['trace', sub.value, copy.deepcopy(model['traces'][j]), groups])
                    groups += 1
                elif kind == 'trace' and len(real) and op['op'] == 'event':
                    j = op['i'] % len(real)
                    sub = call(copy.deepcopy, real[j])
                    if not sub.ok:
                        raise Violation('copy', f'copying an event {sub.brief()}')
                    roots.append(['event', sub.value, copy.deepcopy(model['events'][j]), groups])
                    groups += 1
            elif op['op'] == 'copy':
                if kind == 'pm4py':
                    continue
                o = call(copy.copy, real)
                if not o.ok:
                    raise Violation('copy', f'copying a {kind} {o.brief()}')
                roots.append([kind, o.value, copy.deepcopy(model), grp])
                ctx.probe('copies')
            elif op['op'] == 'deepcopy':
                if kind == 'pm4py':
                    continue
                o = call(copy.deepcopy, real)
                if not o.ok:
                    raise Violation('copy', f'deep-copying a {kind} {o.brief()}')
                roots.append([kind, o.value, copy.deepcopy(model), groups])
                groups += 1
                ctx.probe('deep copies')
            elif op['op'] == 'to' and kind == 'log':
                o = call(pc.to_pm4py_log, real)
                if not o.ok:
                    raise Violation('convert', f'converting to pm4py {o.brief()}')
                roots.append(['pm4py', o.value, {'traces': [[copy.deepcopy(e) for e in t['events']] for t in model['traces']]}, groups])
                groups += 1
                ctx.probe('conversions')
            elif op['op'] == 'from' and kind == 'log':
                # a pm4py log holding everything, as pm4py's own importer would build it
                src = pm4py_log(model, el)
                o = call(pc.from_pm4py_log, src)
                if not o.ok:
                    raise Violation('convert', f'converting from pm4py {o.brief()}')
                roots.append(['log', o.value, copy.deepcopy(model), groups])
                # then the source is edited: the converted log must not notice
                scribble(src)
                groups += 1
                ctx.probe('conversions')
            check_all(ctx, roots, where)


def pm4py_log(model, el):
    from pm4py.objects.log.obj import Event, EventLog, Trace
    v = lambda x: (el.MyEvent({k: v(y) for k, y in x[1].items()}) if x[0] == 'event' else [v(y) for y in x[1]] if x[0] == 'l'
                   else logs.value(x))
    d = lambda m: {k: v(x) for k, x in m.items()}
    out = EventLog(attributes=dict(model['attrs']), extensions=copy.deepcopy(model['ext']), classifiers=copy.deepcopy(model['cls']),
                   omni_present={k: d(x) for k, x in model['glob'].items()}, properties=d(model['props']))
    for t in model['traces']:
        tr = Trace(attributes=d(t['attrs']))
        for e in t['events']:
            tr.append(Event(d(e)))
        out.append(tr)
    return out


def scribble(log):
    log.attributes['scribble'] = '1'
    log.properties['scribble'] = '1'
    for dd in (log.extensions, log.omni_present):
        for x in dd.values():
            x['scribble'] = '1'
    for x in log.classifiers.values():
        x.append('scribble')
    grow = lambda d: d[LIST][1].append('scribble') if LIST in d else None
    grow(log.properties)
    for t in log:
        t.attributes['scribble'] = '1'
        grow(t.attributes)
        for e in t:
            e['scribble'] = '1'
            grow(e)
            for u in e.get('UnderlyingEvents', []) if 'UnderlyingEvents' in e else []:
                u['scribble'] = 1


def view(kind, real):
    if kind == 'log':
        return logs.snapshot(real)
    if kind == 'trace':
        return logs.snap_trace(real)
    if kind == 'event':
        return logs.snap_dict(real.payload)
    return {'traces': [[logs.snap_dict(dict(e.items())) for e in t] for t in real]}


def check_all(ctx, roots, where):
    for i, (kind, real, model, grp) in enumerate(roots):
        with oracle('copy'):
            d = diff(model, view(kind, real), kind)
        if d:
            raise Violation('copy', f'{where}: object {i} ({kind}): {d}')


def edit(op, kind, real, model):
    """-> None (not applicable), 'top' (only the object itself changes) or 'deep' (something it may share changes)"""
    el, fn, cn = logs.api()
    how = op['how']
    v, mv = logs.value(op['v']), logs.snap_value(logs.value(op['v']))
    k = op['k']
    def grow(values, m):
        if LIST not in m or m[LIST][0] != 'l':
            return None
        # the list, or the one inside of it
        deep = op['where'][1] % 2 and len(m[LIST][1]) > 1 and m[LIST][1][1][0] == 'l'
        (values[LIST][1] if deep else values[LIST]).append('more')
        (m[LIST][1][1] if deep else m[LIST])[1].append(['s', 'more'])
        return 'deep'

    if how == 'ev_all' and kind != 'event':
        # the same attribute of every event
        traces = [real] if kind == 'trace' else real
        for t, m in zip(traces, [model] if kind == 'trace' else model['traces']):
            for e, x in zip(t, m if kind == 'pm4py' else m['events']):
                e[k] = v
                x[k] = mv
        return 'top' if kind == 'pm4py' else 'deep'
    if kind == 'event':
        if how == 'ev_list':
            return grow(real.payload, model)
        if how == 'ev_under_in' and 'UnderlyingEvents' in model:
            real['UnderlyingEvents'][0][k] = v
            model['UnderlyingEvents'][1][0][1][k] = mv
            return 'deep'
        if how == 'ev_set':
            real[k] = v
            model[k] = mv
            return 'top'
        if how == 'ev_del' and k in model and k != cn:
            del real[k]
            del model[k]
            return 'top'
        if how == 'ev_under' and 'UnderlyingEvents' in model:
            real['UnderlyingEvents'].append(el.MyEvent({cn: 'u3'}))
            model['UnderlyingEvents'][1].append(['event', {cn: ['s', 'u3']}])
            return 'deep'
        return None
    if kind == 'pm4py':
        ts = [(a, b) for a, b in zip(real, model['traces']) if len(a)]
        if how in ('ev_set', 'tr_del') and ts:
            a, b = ts[op['where'][0] % len(ts)]
            j = op['where'][1] % len(a)
            a[j][k] = v
            b[j][k] = mv
            return 'top'
        if how in ('ev_under_in', 'ev_list') and ts:
            a, b = ts[op['where'][0] % len(ts)]
            j = op['where'][1] % len(a)
            if how == 'ev_list':
                return grow(a[j], b[j]) and 'top'
            if 'UnderlyingEvents' in b[j]:
                a[j]['UnderlyingEvents'][0][k] = v
                b[j]['UnderlyingEvents'][1][0][1][k] = mv
                return 'top'
        if how == 'ev_under' and ts:
            a, b = ts[op['where'][0] % len(ts)]
            j = op['where'][1] % len(a)
            if 'UnderlyingEvents' in b[j]:
                a[j]['UnderlyingEvents'].append(el.MyEvent({cn: 'u4'}))
                b[j]['UnderlyingEvents'][1].append(['event', {cn: ['s', 'u4']}])
                return 'top'
        return None
    if kind == 'log':
        simple = {'log_attr': ('attributes', 'attrs'), 'log_prop': ('properties', 'props')}
        if how == 'log_attr':
            real.attributes[k] = 'v'
            model['attrs'][k] = 'v'
            return 'top'
        if how == 'log_list':
            return grow(real.properties, model['props'])
        if how == 'log_prop':
            real.properties[k] = v
            model['props'][k] = mv
            return 'top'
        if how == 'log_ext':
            real.extensions['N'] = {'prefix': k}
            model['ext']['N'] = {'prefix': k}
            return 'top'
        if how == 'log_cls':
            real.classifiers['N'] = [k]
            model['cls']['N'] = [k]
            return 'top'
        if how == 'log_glob':
            real.global_values['N'] = {k: v}
            model['glob']['N'] = {k: mv}
            return 'top'
        if how == 'log_cls_in' and model['cls']:
            n = sorted(model['cls'])[0]
            real.classifiers[n].append(k)
            model['cls'][n].append(k)
            return 'deep'
        if how == 'log_ext_in' and model['ext']:
            n = sorted(model['ext'])[0]
            real.extensions[n]['x'] = k
            model['ext'][n]['x'] = k
            return 'deep'
        if how == 'log_glob_in' and model['glob']:
            n = sorted(model['glob'])[0]
            real.global_values[n][k] = v
            model['glob'][n][k] = mv
            return 'deep'
        if how == 'log_append':
            real.append(el.MyTrace([el.MyEvent({cn: 'new'})], {k: v}))
            model['traces'].append({'attrs': {k: mv}, 'events': [{cn: ['s', 'new']}]})
            return 'top'
        if how == 'log_del' and model['traces']:
            j = op['where'][0] % len(model['traces'])
            del real[j]
            del model['traces'][j]
            return 'top'
        if not model['traces']:
            return None
        j = op['where'][0] % len(model['traces'])
        r = edit(dict(op, where=[op['where'][1], op['where'][0]]), 'trace', real[j], model['traces'][j])
        return r and 'deep'
    # trace
    if how == 'tr_list':
        return grow(real.attributes, model['attrs'])
    if how == 'tr_attr':
        real.attributes[k] = v
        model['attrs'][k] = mv
        return 'top'
    if how == 'tr_append':
        real.append(el.MyEvent({cn: 'new', 'x': v}))
        model['events'].append({cn: ['s', 'new'], 'x': mv})
        return 'top'
    if how == 'tr_insert':
        j = op['where'][0] % (len(model['events']) + 1)
        real.insert(el.MyEvent({cn: 'ins'}), j)
        model['events'].insert(j, {cn: ['s', 'ins']})
        return 'top'
    if not model['events']:
        return None
    j = op['where'][0] % len(model['events'])
    if how == 'tr_del':
        del real[j]
        del model['events'][j]
        return 'top'
    if how == 'tr_replace':
        real[j] = el.MyEvent({cn: 'rep'})
        model['events'][j] = {cn: ['s', 'rep']}
        return 'top'
    r = edit(op, 'event', real[j], model['events'][j])
    return r and 'deep'


# ---- branches ---------------------------------------------------------------------------------------
def state(r):
    """everything held by a result, down to the attributes of the events"""
    m = legacy.mods()
    out = legacy.observe(r)
    out['full log'] = logs.snapshot(m.acc.log(r))
    out['keys'] = sorted(str(k) for k in r.values if k != m.keys.cached_colors_key)
    return out


def start(sc):
    """a fresh result after the prefix, None when the prefix cannot run on this log"""
    r = legacy.start(logs.build(logs.plain(sc['names'])))
    return call(legacy.run_chain, sc['pre'], r)


def run_branches(sc, ctx):
    m = legacy.mods()
    root = runner.scratch()
    os.chdir(root)

    class Probe(m.pl.InternalPipelinePart):
        def __init__(self, i):
            self.i = i

        def execute(self, r):
            seen[self.i] = state(r)
            return r

    def pipe(i):
        return m.pl.Pipeline(*[legacy.build(st, root) for st in sc['bs'][i]], Probe(i))

    # each branch on its own, without faults
    alone = {}
    seen = {}
    for i in range(len(sc['bs'])):
        with seams.World(ctx, root=root, rand_seed=sc['seed']) as w:
            w.renderer = render.Renderer(ctx, w)
            o = start(sc)
            if not o.ok:
                ctx.probe('prefix fails')
                return
            r = call(pipe(i), o.value)
            alone[i] = seen.get(i) if r.ok else None
            if not r.ok:
                ctx.ev('branch fails', i, type(r.exc).__name__)
    plan = {'faults': [{'op': 'write', 'nth': 1 + sc['at'] % 5, 'kind': 'ENOSPC'}, {'op': 'open_w', 'nth': 1 + sc['at'] % 3, 'kind': 'EACCES'}]} \
        if sc['fault'] == 'disk' else {}
    seen = {}
    with seams.World(ctx, root=root, rand_seed=sc['seed'], disk_plan=plan) as w:
        w.renderer = render.Renderer(ctx, w, [{'nth': 1 + sc['at'] % 3, 'kind': 'exit'}] if sc['fault'] == 'renderer' else ())
        o = start(sc)
        if not o.ok:
            return
        r = o.value
        before = state(r)
        keys = list(r.values)
        colors = dict(r.values.get(m.keys.cached_colors_key, {}))
        n = len(sc['bs'])
        if sc['how'] == 'copy':
            block = m.pl.Pipeline(*[m.pl.WithInputCopy(pipe(i)) for i in range(n)])
        elif sc['how'] == 'par':
            block = m.pl.ParallelPipeline(*[pipe(i) for i in range(n)])
        else:
            block = m.pl.WithInputCopy(m.pl.Pipeline(m.pl.ParallelPipeline(*[pipe(i) for i in range(n)])))
        if sc['fault'] == 'interrupt':
            with sched.InterruptAt(ctx, sc['at']):
                o = call(block.execute, r)
        else:
            o = call(block.execute, r)
        ctx.ev('block', o.brief() if not o.exc else type(o.exc).__name__)
        with oracle('isolation'):
            d = diff(before, state(r), 'result')
        if d:
            raise Violation('isolation', f'the result outside the isolated branches changed ({sc["how"]}, block {o.brief()}): {d}')
        now = dict(r.values.get(m.keys.cached_colors_key, {}))
        bad = [k for k in colors if now.get(k) != colors[k]]
        if bad:
            raise Violation('isolation', f'cached colour of {bad[0]!r} changed from {colors[bad[0]]} to {now.get(bad[0])}')
        for i, s in sorted(seen.items()):
            if alone.get(i) is None:
                continue
            ctx.probe('branches compared')
            d = diff(legacy.normal(alone[i]), legacy.normal(s), f'branch {i}')
            if d:
                raise Violation('isolation', f'a branch gave another result next to other branches than alone: {d}')
        if o.ok:
            if sc['how'] in ('copy', 'both') and o.value is not r:
                with oracle('isolation'):
                    d = diff(before, state(o.value), 'result')
                if d:
                    raise Violation('isolation', f'the block did not hand on the original result: {d}')
            missing = [i for i in range(n) if i not in seen]
            if missing:
                raise Violation('isolation', f'branch {missing[0]} did not run to its end though the block succeeded')
        ctx.ev('seen', len(seen))
