"""C10: a legacy pipeline runs its parts in the composed order, each once, stops at the first failure, can be run again."""
import os

from .. import logs, runner, seams
from ..client import diff
from ..core import Violation, call, canon, oracle

ID = 'C10'
RUNS = {'quick': 60000, 'thorough': 1500000}
RULE = ('one evaluation = one simulated history of 1-4 runs (with edits and injected failures) of one generated pipeline '
        'tree against a reference interpreter; distinct = different histories')
REAL = ['ficus.legacy.pipelines.pipelines', 'ficus.legacy.pipelines.contexts', 'start parts', 'block parts '
        '(parallel, copy, temp input, if, before/after, for each activity log)']
STUB = ['leaf parts, conditions and transformers are recording probes that fail on command', 'raw file I/O']
ASSUMPTIONS = ['a failure is an exception or a user interrupt raised by a part, a condition, a transformer or a merger']
COUNT_ALL = True
SHRINK_KEEP = ('t', 'act', 'op', 'exc', 'start', 'k', 'c', 'id')
KEYS = ['k0', 'k1', 'k2', 'k3']
EXC = {'value': ValueError, 'key': KeyError, 'interrupt': KeyboardInterrupt, 'stop': StopIteration, 'os': OSError,
       'type': TypeError, 'mem': MemoryError}


# what a pipeline with a first part of the user's own may start from
ANY = [0, '', [], False, None, {}, 'x', 7]
# what a condition may give instead of a plain truth value
TRUTH = {'int': (0, 2), 'list': ([], ['x']), 'str': ('', 'no'), 'none': (None, 'x')}


# ---- scenarios --------------------------------------------------------------------------------------
class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def acts(self):
        r = self.rng
        out = []
        for _ in range(r.weighted([(0, 1), (1, 4), (2, 2)])):
            k = r.weighted([('set', 5), ('append', 3), ('del', 1), ('log', 1)])
            out.append({'act': k, 'k': r.pick(KEYS), 'v': r.int(0, 99)})
        return out

    def ident(self):
        self.n += 1
        return self.n

    def leaf(self):
        return {'t': 'probe', 'id': self.ident(), 'do': self.acts(), 'new': self.rng.weighted([('same', 5), ('copy', 2), ('fresh', 1)])}

    def node(self, depth):
        r = self.rng
        t = 'probe' if depth <= 0 else r.weighted([('probe', 6), ('par', 1.5), ('copy', 1.5), ('if', 1.5), ('temp', 1),
                                                   ('before', 0.8), ('each', 0.8), ('none', 0.3),
                                                   ('info', 0.6)])
        if t == 'info':
            return {'t': 'info'}
        if t == 'probe':
            return self.leaf()
        if t == 'none':
            return {'t': 'none'}
        out = {'t': t, 'id': self.ident()}
        if t == 'par':
            out['bs'] = [self.body(depth - 1) for _ in range(r.int(1, 3) if r.chance(0.95) else r.int(4, 8))]
            return out
        out['b'] = self.body(depth - 1)
        if t == 'if':
            out['c'] = r.pick(['yes', 'no'] + KEYS)
            if r.chance(0.4):
                out['as'] = r.pick(sorted(TRUTH))
        if t == 'temp':
            out['in'] = r.pick(['copy', 'fresh', 'same'])
            out['out'] = r.pick(['initial', 'temp', 'merge'])
            out['k'] = r.pick(KEYS)
        if t == 'each':
            out['logs'] = {f'act{i}': [[r.pick(logs.PLAIN)] * r.int(1, 2)] if r.chance(0.85) else r.pick([[], [[]]]) for i in range(r.int(0, 3))}
        return out

    def body(self, depth):
        return [self.node(depth) for _ in range(self.rng.weighted([(0, 1), (1, 3), (2, 4), (3, 2)]))]


def generate(rng, tier):
    g = Gen(rng)
    parts = [g.node(3) for _ in range(rng.weighted([(0, 1), (1, 2), (3, 4), (5, 2), (8, 1)]))]
    runs = []
    for i in range(rng.weighted([(1, 20), (2, 30), (4, 10), (rng.int(6, 16), 1)])):
        run = {'call': rng.chance(0.5)}
        if rng.chance(0.06):
            run['bad'] = rng.int(0, 2)
        if rng.chance(0.4):
            run['fault'] = {'at': rng.weighted([(rng.int(1, 4), 2), (rng.int(1, 20), 2)]), 'exc': rng.pick(sorted(EXC))}
        if i and rng.chance(0.4):
            run['edit'] = [{'op': rng.pick(['append', 'insert', 'remove']), 'at': rng.int(0, 6), 'part': g.node(1)}
                           for _ in range(rng.int(1, 2))]
            for e in run['edit']:
                if rng.chance(0.3):
                    e['same'] = rng.int(0, 9)       # a part that is in the pipeline already
                if rng.chance(0.2):
                    e['neg'] = True                 # counted from the end
        runs.append(run)
    return {'parts': parts, 'runs': runs, 'twice': [[rng.int(0, 9), rng.int(0, 9)]] if rng.chance(0.15) else [], 'start': rng.pick(['use', 'use', 'xes', 'empty', 'none', 'any']),
            'any': rng.int(0, len(ANY) - 1),
            'log': [[rng.pick(logs.PLAIN) for _ in range(rng.int(1, 4))] for _ in range(rng.int(1, 3))]}


# ---- what is recorded -------------------------------------------------------------------------------
class Rec:
    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = []
        self.n = 0
        self.at = None
        self.exc = None

    def start(self, fault):
        self.seen = []
        self.got = []
        self.n = 0
        self.at = fault['at'] if fault else None
        self.kind = fault['exc'] if fault else None
        self.exc = None

    def hit(self, what, ident, values):
        self.n += 1
        self.seen.append([what, ident, values])
        if self.at is not None and self.n == self.at:
            self.ctx.fault('part_fails_' + self.kind)
            self.exc = EXC[self.kind]('injected')
            raise self.exc


class Stop(Exception):
    pass


class Missing(Exception):
    """a part needs what no part before it gave"""


# ---- reference interpreter --------------------------------------------------------------------------
class Ref:
    """values: custom values, log (names), name; mutable and shared exactly as a pipeline result is."""

    def __init__(self, values=None):
        self.v = dict(values or {})

    def view(self):
        return {k: self.v[k] for k in sorted(self.v)}


class Model:
    def __init__(self, fault):
        self.seen = []
        self.n = 0
        self.at = fault['at'] if fault else None

    def hit(self, what, ident, ref):
        self.n += 1
        self.seen.append([what, ident, ref.view()])
        if self.n == self.at:
            raise Stop()

    def run(self, body, v):
        for p in body:
            v = self.part(p, v)
        return v

    def part(self, p, v):
        t = p['t']
        if t == 'none':
            return v
        if t == 'info':
            if 'log' not in v.v:
                raise Missing()
            return v
        if t == 'probe':
            self.hit('probe', p['id'], v)
            out = v if p['new'] == 'same' else Ref(v.v) if p['new'] == 'copy' else Ref(
                {'log': v.v['log']} if 'log' in v.v else {})
            for a in p['do']:
                if a['act'] == 'set':
                    out.v[a['k']] = [a['v']]
                elif a['act'] == 'append':
                    out.v[a['k']] = out.v.get(a['k'], []) + [a['v']]
                elif a['act'] == 'del':
                    out.v.pop(a['k'], None)
                else:
                    out.v['log'] = [[f'L{a["v"]}']]
            return out
        if t == 'par':
            last = None
            for b in p['bs']:
                last = self.run(b, Ref(v.v))
            return last
        if t == 'copy':
            self.run(p['b'], Ref(v.v))
            return v
        if t == 'if':
            self.hit('cond', p['id'], v)
            return self.run(p['b'], v) if (p['c'] == 'yes' or p['c'] in v.v) else v
        if t == 'temp':
            self.hit('in', p['id'], v)
            tmp = v if p['in'] == 'same' else Ref(v.v) if p['in'] == 'copy' else Ref({'log': v.v['log']} if 'log' in v.v else {})
            r = self.run(p['b'], tmp)
            self.hit('merge1', p['id'], v)
            self.hit('merge2', p['id'], r)
            if p['out'] == 'initial':
                return v
            if p['out'] == 'temp':
                return r
            v.v[p['k']] = [len(r.v)]
            return v
        if t == 'before':
            v.v.setdefault('log', [['Z']])
            return self.run(p['b'], v)
        if t == 'each':
            for name, names in p['logs'].items():
                self.run(p['b'], Ref({'log': names, 'name': name}))
            return v
        raise AssertionError(t)


# ---- the real thing ---------------------------------------------------------------------------------
_api = None


def api():
    global _api
    if _api is None:
        from ficus.legacy.pipelines import pipelines as pl
        from ficus.legacy.pipelines.contexts import accessors, part_results as pr
        from ficus.legacy.pipelines.contexts.keys import activity_name_key, log_key
        from ficus.legacy.pipelines.start import start_parts as st
        from ficus.legacy.pipelines.analysis.analysis_parts import PrintEventLogInfo, PrintEventLogInfoBeforeAndAfter
        from ficus.legacy.pipelines.analysis.high_level import ExecuteWithEachActivityLog

        def view(r):
            out = {}
            for k in KEYS:
                if r.has_value(k):
                    out[k] = list(r.get_value_or_throw(k))
            if r.has_value(log_key):
                out['log'] = logs.names_of(accessors.log(r))
            if r.has_value(activity_name_key):
                out['name'] = accessors.activity_name(r)
            return out

        def fresh(r):
            out = pr.PipelinePartResult()
            return out.with_log(accessors.log(r)) if r.has_value(log_key) else out

        class Probe(pl.InternalPipelinePart):
            def __init__(self, spec, rec):
                self.spec = spec
                self.rec = rec

            def execute(self, r):
                self.rec.hit('probe', self.spec['id'], view(r))
                import copy
                new = self.spec['new']
                out = r if new == 'same' else copy.copy(r) if new == 'copy' else fresh(r)
                for a in self.spec['do']:
                    if a['act'] == 'set':
                        out.with_custom_data(a['k'], [a['v']])
                    elif a['act'] == 'append':
                        old = out.get_value_or_throw(a['k']) if out.has_value(a['k']) else []
                        out.with_custom_data(a['k'], old + [a['v']])
                    elif a['act'] == 'del':
                        if out.has_value(a['k']):
                            out.remove(a['k'])
                    else:
                        out.with_log(logs.build(logs.plain([[f'L{a["v"]}']])))
                return out

        class First(pl.FirstPipelinePart):
            def __init__(self, rec):
                self.rec = rec

            def execute(self, x):
                self.rec.got.append(x)
                return pr.PipelinePartResult()

        class EnsureLog(pl.InternalPipelinePart):
            def execute(self, r):
                return r if r.has_value(log_key) else r.with_log(logs.build(logs.plain([['Z']])))

        class SetLogs(pl.InternalPipelinePart):
            def __init__(self, spec):
                self.spec = spec

            def execute(self, r):
                return r.with_activities_logs({k: logs.build(logs.plain(v)) for k, v in self.spec['logs'].items()})

        class Api:
            pass
        a = Api()
        a.pl, a.pr, a.st, a.view, a.fresh = pl, pr, st, view, fresh
        a.Probe, a.EnsureLog, a.SetLogs, a.First = Probe, EnsureLog, SetLogs, First
        a.Info = PrintEventLogInfo
        a.Before, a.Each = PrintEventLogInfoBeforeAndAfter, ExecuteWithEachActivityLog
        _api = a
    return _api


def parts_of(a, p, rec):
    """the list of real parts standing for one node"""
    import copy
    t = p['t']
    if t == 'none':
        return [None]
    if t == 'info':
        return [a.Info()]
    if t == 'probe':
        return [a.Probe(p, rec)]
    if t == 'par':
        return [a.pl.ParallelPipeline(*[pipe(a, b, rec) for b in p['bs']])]
    if t == 'copy':
        return [a.pl.WithInputCopy(pipe(a, p['b'], rec))]
    if t == 'if':
        def cond(r):
            rec.hit('cond', p['id'], a.view(r))
            yes = p['c'] == 'yes' or (p['c'] != 'no' and r.has_value(p['c']))
            return TRUTH[p['as']][yes] if 'as' in p else yes
        return [a.pl.IfPipeline(cond, pipe(a, p['b'], rec))]
    if t == 'temp':
        def tin(r):
            rec.hit('in', p['id'], a.view(r))
            return r if p['in'] == 'same' else copy.copy(r) if p['in'] == 'copy' else a.fresh(r)

        def tout(r, tmp):
            rec.hit('merge1', p['id'], a.view(r))
            rec.hit('merge2', p['id'], a.view(tmp))
            if p['out'] == 'initial':
                return r
            if p['out'] == 'temp':
                return tmp
            return r.with_custom_data(p['k'], [len(a.view(tmp))])
        return [a.pl.WithTempInput(tin, tout, pipe(a, p['b'], rec))]
    if t == 'before':
        return [a.EnsureLog(), a.Before(f'op{p["id"]}', pipe(a, p['b'], rec))]
    if t == 'each':
        return [a.SetLogs(p), a.Each(pipe(a, p['b'], rec))]


def pipe(a, body, rec):
    return a.pl.Pipeline(*[x for p in body for x in parts_of(a, p, rec)])


def execute(sc, ctx):
    with oracle('harness_api'):
        a = api()
    root = runner.scratch(ctx)
    rec = Rec(ctx)
    world = seams.World(ctx, root=root)
    with world:
        log = logs.build(logs.plain(sc['log']))
        path = os.path.join(root, 'in.xes')
        if sc['start'] == 'xes':
            from ficus.legacy.log.functions import save_event_log_to_xes
            save_event_log_to_xes(log, path)
        start = {'use': a.st.UseExistingLog, 'xes': a.st.ReadLogFromXes, 'empty': a.st.EmptyStartPart}
        nodes = list(sc['parts'])
        flat = [parts_of(a, p, rec) for p in nodes]
        for which, at in sc.get('twice', ()):
            if nodes:
                which, at = which % len(nodes), at % (len(nodes) + 1)
                n, f = nodes[which], flat[which]
                nodes.insert(at, n)
                flat.insert(at, list(f))
        start['any'] = lambda: a.First(rec)
        first = [start[sc['start']]()] if sc['start'] != 'none' else []
        for wrong in ('part', 3, lambda r: r):
            if call(a.pl.Pipeline, wrong).ok:
                raise Violation('failure_hidden', f'{wrong!r} was taken for a part of a pipeline')
        with oracle('build'):
            pl = a.pl.Pipeline(*(first + [x for f in flat for x in f]))
        for i, run in enumerate(sc['runs']):
            # edits address whole parts of the composed list (None parts are not in it)
            for e in run.get('edit', ()):
                real = [[x for x in f if x is not None] for f in flat]
                at = e['at'] % (len(nodes) + 1)
                idx = len(first) + sum(len(f) for f in real[:at])
                part, new = e['part'], None
                if 'same' in e and nodes:
                    part, new = nodes[e['same'] % len(nodes)], real[e['same'] % len(nodes)]
                new = [x for x in parts_of(a, part, rec) if x is not None] if new is None else list(new)
                total = len(first) + sum(len(f) for f in real)
                from_end = lambda n: n - total if e.get('neg') and n < total else n
                with oracle('edit'):
                    if e['op'] == 'append':
                        for x in new:
                            pl.append(x)
                        nodes.append(part)
                        flat.append(new)
                    elif e['op'] == 'insert':
                        idx = from_end(idx)
                        for k, x in enumerate(new):
                            # from the end the place moves on by itself
                            pl.insert(idx + k if idx >= 0 else idx, x)
                        nodes.insert(at, part)
                        flat.insert(at, new)
                    elif nodes:
                        at = e['at'] % len(nodes)
                        idx = len(first) + sum(len(f) for f in real[:at])
                        for _ in real[at]:
                            pl.remove(from_end(idx))
                            total -= 1
                        del nodes[at]
                        del flat[at]
            m = Model(run.get('fault'))
            ref = Ref({'log': sc['log']} if sc['start'] in ('use', 'xes') else {})
            stopped = missing = False
            want = None
            bad = 'bad' in run and sc['start'] in ('use', 'xes')
            try:
                want = m.run(nodes, ref) if not bad else None
            except Stop:
                stopped = True
            except Missing:
                missing = True
            rec.start(run.get('fault'))
            inp = {'use': log, 'xes': path, 'empty': None}.get(sc['start'])
            if bad:
                # not what the first part starts from
                inp = [None, 17, path if sc['start'] == 'use' else log][run['bad']]
            if sc['start'] == 'none':
                inp = a.pr.PipelinePartResult()
            elif sc['start'] == 'any':
                inp = ANY[sc['any']]
            out = call(pl if run['call'] else pl.execute, inp) if not (run['call'] and sc['start'] == 'empty') else call(pl)
            ctx.ev('run', i, out.brief(), canon([s[:2] for s in rec.seen]))
            ctx.probe('parts_run', len(rec.seen))
            d = diff(rec.seen, m.seen)
            if d:
                raise Violation('order', f'run {i}: parts ran differently from the composition: {d}; ran {canon([s[:2] for s in rec.seen])}'
                                f' instead of {canon([s[:2] for s in m.seen])} ({out.brief()})')
            if sc['start'] == 'any' and (len(rec.got) != 1 or rec.got[0] is not inp):
                raise Violation('order', f'run {i}: the first part got {rec.got!r} instead of {inp!r}')
            if bad or missing:
                ctx.probe('missing_value')
                if out.ok or not isinstance(out.exc, Exception):
                    raise Violation('failure_hidden', f'run {i}: ' + ('the input is of the wrong kind' if bad else 'a part lacked its log')
                                    + f' but the run {out.brief()}')
            elif stopped:
                if out.ok or out.exc is not rec.exc:
                    raise Violation('failure_hidden', f'run {i}: a part raised {rec.exc!r} but the run {out.brief()}')
            else:
                if not out.ok:
                    raise Violation('failed', f'run {i}: no part failed but the run {out.brief()}')
                with oracle('result'):
                    got = a.view(out.value)
                d = diff(got, want.view())
                if d:
                    raise Violation('result', f'run {i}: wrong result: {d}')
