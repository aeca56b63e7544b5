"""C14: discovery, abstraction, filtering and mutation of a local log neither lose, invent, duplicate nor reorder events,
also after user functions failed or the user stopped earlier attempts."""
import os

from .. import legacy, logs, runner, sched, seams
from ..client import diff
from ..core import Violation, call, oracle

ID = 'C14'
RUNS = {'quick': 24000, 'thorough': 400000}
RULE = ('one evaluation = one history of log transformations (with failing user functions and interrupts before the judged '
        'attempt) checked event by event against reference transformations; distinct = different histories')
REAL = ['ficus.legacy.pipelines (discovery, mutation, filtering parts)', 'ficus.legacy.analysis.patterns', 'ficus.legacy.filtering',
        'ficus.legacy.mutations', 'ficus.legacy.analysis.event_log_analysis_entropy']
STUB = ['clock', 'uuid source']
ASSUMPTIONS = ['tandem arrays have to be reported where their stretch first appears; later ones of the same stretch may be left out',
               'entropy formulas are not judged, only that filters remove what they say and reach a fixed point']
COUNT_ALL = True
SHRINK_KEEP = ('s', 'ex', 'exs', 'kind', 'ids')

FIND = ['AllPatterns', 'DiscoverRepeats', 'DiscoverTandemArrays', 'DiscoverRepeatsSets', 'DiscoverActivities', 'DiscoverActivitiesInTraces',
        'FromTandemArrays', 'FromRepeats', 'Adjust', 'AdjustUnattached', 'SeveralLevels', 'InUnattached', 'ClearActivities',
        'LogsForActivities', 'LogsWithPromote']
FILTER = ['PosDirect', 'PosIndirect', 'DfgDirect', 'DfgIndirect']
STEPS = FIND + legacy.NEWLOG + list(legacy.MUTATE) + ['FromActivities'] * 4 + ['Substitute', 'UntilNoMore'] * 2
# pairs with one polynomial hash in base 31 or in naive sums; sets that a joined string confuses
TRICKY = [['aa', 'Bb', 'A'], ['AB', 'A', 'B'], ['A', 'B', 'AC'], ['ab', 'ba', 'a', 'b'], ['AaAa', 'BBBB', 'AaBB'], ['1', '11', '111'],
          ['', 'A', 'B'], ['a', 'A', 'b', 'B'], ['UndefinedActivity', 'A', 'B'], ['x y', 'x', 'y'], ['é', 'e', 'è'],
          ['Activity_0', 'Activity_1', 'A'], ['absent', 'A', 'B']]


class UserError(Exception):
    pass


def generate(rng, tier):
    al = rng.pick(TRICKY) if rng.chance(0.35) else None
    names = legacy.gen_names(rng, most=4, longest=rng.pick([6, 10, 14]), alphabet=al, family=0.12)
    have = sorted({n for t in names for n in t}) or ['A']
    allowed = rng.weighted([(STEPS, 4), (FIND + ['FromActivities'], 3), (FILTER + ['ByCount', 'ByVariants', 'RemoveNames'], 2)])
    chain = legacy.gen_chain(rng, rng.int(1, 4), allowed, have)
    for st in chain:
        if st.get('namer'):
            st['namer'] = 'own'      # names tell the sets of activities apart here
    sc = {'names': names, 'chain': chain, 'life': rng.chance(0.3), 'ids': rng.weighted([('own', 4), ('name', 1), ('none', 1)]), 'faults': []}
    for _ in range(rng.weighted([(0, 3), (1, 4), (2, 2)])):
        sc['faults'].append({'kind': rng.pick(['user', 'user', 'interrupt', 'none']), 'at': rng.int(1, rng.pick([5, 30, 300]))})
    if sc['faults'] and rng.chance(0.3):
        # the attempts see the same log object with other contents, which is edited in place afterwards
        sc['other'] = [[rng.pick(have) for _ in t] for t in names]
    return sc


# ---- user functions that may fail ----------------------------------------------------------------------
class Users:
    """counts the calls of user functions; the nth one fails"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.left = None

    def hit(self):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.left = None
                self.ctx.fault('user_function')
                raise UserError()

    def wrap(self, f):
        def g(*a, **k):
            self.hit()
            return f(*a, **k)
        return g


# ---- views ------------------------------------------------------------------------------------------------
def ids(e):
    """an event as [name, id] or [name, [events below]]"""
    if 'UnderlyingEvents' in e:
        return [e['concept:name'], [ids(u) for u in e['UnderlyingEvents']]]
    return [e['concept:name'], e['id'] if 'id' in e else None]


def view(log):
    return [[ids(e) for e in t] for t in log]


def leaves(v):
    out = []
    for e in v:
        if isinstance(e[1], list):
            out += leaves(e[1])
        else:
            out.append(e)
    return out


def eclass(name, ex):
    return legacy.str_extractor(ex)(name)


def nodes_of(acts):
    out = []
    todo = list(acts)
    while todo:
        n = todo.pop()
        out.append(n)
        todo += n.child_nodes
    return out


def ncls(n):
    return frozenset(n.name.removeprefix('N|').split('::'))


def need(cond, kind, text):
    if not cond:
        raise Violation(kind, text)


def same(a, b, kind, text):
    d = diff(a, b)
    if d:
        raise Violation(kind, f'{text}: {d}')


# ---- the history ---------------------------------------------------------------------------------------------
def spec_of(sc, names='names'):
    spec = logs.plain(sc[names])
    k = 0
    for t in spec['traces']:
        for e in t['events']:
            # events told apart by their number, or equal when they have the same name
            e['p'] = {'own': {'id': ['i', k]}, 'name': {'id': ['s', e['n']]}, 'none': {}}[sc.get('ids', 'own')]
            if sc['life'] and (k if sc.get('ids', 'own') == 'own' else ord(e['n'][:1] or 'a')) % 2:
                e['p']['lifecycle:transition'] = ['s', 'complete']
            k += 1
    return spec


def execute(sc, ctx):
    root = runner.scratch()
    os.chdir(root)
    users = Users(ctx)
    spec = spec_of(sc)
    mutates = any(st['s'] in legacy.MUTATE for st in sc['chain'])
    with seams.World(ctx, root=root):
        stale = spec_of(sc, 'other') if sc.get('other') is not None else None
        lg = logs.build(stale or spec)
        refill = logs.Refill(lg)
        parts = [legacy.build(st, root, users.wrap) for st in sc['chain']]
        for f in sc['faults']:
            if stale is not None:
                src = refill(stale)
            else:
                src = logs.build(spec) if mutates else lg
            if f['kind'] == 'none':
                o = call(attempt, sc['chain'], parts, src)
            elif f['kind'] == 'user':
                users.left = f['at']
                o = call(attempt, sc['chain'], parts, src)
                users.left = None
            else:
                with sched.InterruptAt(ctx, f['at']):
                    o = call(attempt, sc['chain'], parts, src)
            ctx.ev('attempt', o.brief())
            if not o.ok and not isinstance(o.exc, (UserError, KeyboardInterrupt)):
                raise Violation('crash', f'an attempt with a failing user function or interrupt {o.brief()}')
        if stale is not None:
            refill(spec)
            ctx.probe('logs edited in place')
        r = legacy.start(lg)
        have = set()
        for i, (st, part) in enumerate(zip(sc['chain'], parts)):
            needs, gives = legacy.STEPS[st['s']]
            if any(x.strip('!') not in have for x in needs):
                continue
            with oracle('state'):
                before = State(r)
            del legacy.record[:]
            o = call(part, r)
            where = f'step {i} ({st["s"]})'
            if not o.ok:
                raise Violation('failed', f'{where} {o.brief()}')
            r = o.value
            with oracle('result'):
                after = State(r)
                judge(ctx, st, before, after, r, where, part)
            ctx.ev(st['s'], after.brief())
            have = given(st, have)
            if 'newlog' in gives:
                # what was found in the old log says nothing about the new one
                r = legacy.start(after.log)
                have = set()
            ctx.probe('steps')
        ctx.probe('histories')


def given(st, have):
    have = have | set(legacy.STEPS[st['s']][1])
    # patterns found in merged traces are not positions in the log's own traces
    return have - {'patterns', 'sets'} if st.get('merged') else have


def attempt(chain, parts, lg):
    r = legacy.start(lg)
    have = set()
    for st, p in zip(chain, parts):
        needs, gives = legacy.STEPS[st['s']]
        if any(x.strip('!') not in have for x in needs):
            continue
        r = p(r)
        have = given(st, have)
        if 'newlog' in gives:
            r = legacy.start(legacy.mods().acc.log(r))
            have = set()
    return r


class State:
    def __init__(self, r):
        m = legacy.mods()
        k = m.keys
        get = lambda key, f: f(r) if r.has_value(key) else None
        self.log = m.acc.log(r)
        self.view = view(self.log)
        self.acts = get(k.activities_key, m.acc.activities)
        self.acts = None if self.acts is None else list(self.acts)
        inst = get(k.traces_activities_key, m.acc.traces_activities)
        self.inst = None if inst is None else [list(t) for t in inst]
        self.ivals = None if inst is None else legacy.inst_view(inst)
        self.patterns = get(k.patterns_key, m.acc.patterns)
        self.sets = get(k.repeat_sets_key, m.acc.repeat_sets)
        self.logs = get(k.activities_to_logs_key, m.acc.activities_to_logs)
        self.payload = [[dict(e.payload) for e in t] for t in self.log]

    def names(self):
        return [[e[0] for e in t] for t in self.view]

    def brief(self):
        return f'{[len(t) for t in self.view]} {None if self.acts is None else len(self.acts)} {legacy.normal(self.ivals)}'


def plain_names(b):
    return not any('::' in e[0] or e[0].startswith('N|') for t in b.view for e in t)


# ---- one step ---------------------------------------------------------------------------------------------------
def judge(ctx, st, b, a, r, where, part):
    s = st['s']
    f = globals().get('j_' + s) or GROUP.get(s)
    keeps_log = s in FIND
    if keeps_log:
        same(b.view, a.view, 'log_changed', f'{where} changed the log')
    f(ctx, st, b, a, where)


def dropped(v, keep):
    out = [[e for e in t if keep(e)] for t in v]
    return [t for t in out if t]


def j_remove(ctx, st, b, a, where):
    names = [st['name']] if st['s'] == 'RemoveName' else st['names']
    same(dropped(b.view, lambda e: e[0] not in names), a.view, 'removal', f'{where}: other events are left than those not to be removed')


def j_filter(ctx, st, b, a, where):
    was = {e[0] for t in b.view for e in t}
    now = {e[0] for t in a.view for e in t}
    need(now <= was, 'invented', f'{where}: events of classes {sorted(now - was)} were not in the log')
    removed = was - now
    want = dropped(b.view, lambda e: e[0] not in removed) if removed else b.view
    if not (not removed and a.view == dropped(b.view, lambda e: True)):
        same(want, a.view, 'filter', f'{where}: not whole event classes were removed, or others were reordered')
    kept = set(st.get('keep', ()))
    need(not removed & kept, 'untouchable', f'{where}: untouchable classes {sorted(removed & kept)} were removed')
    if 'most' in st:
        need(len(removed) <= st['most'], 'too_many', f'{where}: {len(removed)} classes were removed, {st["most"]} allowed')
    ctx.probe('classes removed', len(removed))
    # a fixed point, and k at a time is one at a time k times
    def run(**over):
        o = call(legacy.build({**st, **over}), legacy.start(over.pop('log')))
        if not o.ok:
            raise Violation('failed', f'{where} {o.brief()}')
        return legacy.mods().acc.log(o.value)
    st = {k: v for k, v in st.items()}
    if 'most' not in st or len(removed) < st['most']:
        again = view(run(log=a.log))
        same(a.view, again, 'fixed_point', f'{where} removes more when it is applied to its own result')
    if removed:
        lg = b.log
        n = 0
        while n < len(removed):
            nxt = run(log=lg, most=1)
            n += 1
            if nxt is not lg:
                chosen(st, lg, nxt, where)
            lg = nxt
        same(a.view, view(lg), 'stepwise', f'{where}: removing {n} classes at once and one by one differ')
    if len(a.view) and ('most' not in st or len(removed) < st['most']):
        stopped(st, a.log, where)


def score(st, lg):
    """the measure of every class (direct filters) or of the log (indirect filters)"""
    from ficus.legacy.analysis import event_log_analysis_entropy as en
    if st['s'] == 'PosDirect':
        return {k: v for k, v in en.calculate_position_entropies_fast(lg).items() if k not in st.get('keep', ())}
    if st['s'] == 'DfgDirect':
        return {k: v for k, v in en.calculate_laplace_or_default_entropies(lg, st['laplace']).items() if k not in st.get('keep', ())}
    if st['s'] == 'PosIndirect':
        return sum(en.calculate_position_entropies_fast(lg).values())
    return en.calculate_default_entropy_average(lg, st['laplace'])


def chosen(st, lg, nxt, where):
    now = {e[0] for t in view(nxt) for e in t}
    gone = {e[0] for t in view(lg) for e in t} - now
    sc = score(st, lg)
    if not isinstance(sc, dict):
        need(not sc <= st['thr'], 'threshold', f'{where}: {sorted(gone)} is removed though the measure {sc} is not above {st["thr"]}')
        return
    if any(v != v for v in sc.values()):
        return
    for g in gone:
        need(sc[g] > st['thr'] and sc[g] >= max(sc.values()) - 1e-9, 'threshold',
             f'{where}: {g} of {sc} is removed, threshold {st["thr"]}')


def stopped(st, lg, where):
    if not any(view(lg)):
        return
    sc = score(st, lg)
    if isinstance(sc, dict):
        need(not any(v > st['thr'] for v in sc.values()), 'threshold', f'{where}: stops at {sc}, threshold {st["thr"]}')
    elif st['s'] == 'PosIndirect':
        left = {e[0] for t in view(lg) for e in t} - set(st.get('keep', ()))
        # the entropy of a log of at most one trace is 0 / 0: a class whose removal leaves one is no candidate
        lone = any(sum(any(e[0] != n for e in t) for t in view(lg)) < 2 for n in left)
        need(sc != sc or sc <= st['thr'] or not left or lone, 'threshold', f'{where}: stops at {sc}, threshold {st["thr"]}, {left} could go')
    elif not st.get('keep'):
        # with classes to keep it gives up when the worst ones are all of them
        need(sc != sc or sc <= st['thr'], 'threshold', f'{where}: stops at {sc}, threshold {st["thr"]}')


def j_ByCount(ctx, st, b, a, where):
    same([t for t in b.view if len(t) > st['min']], a.view, 'by_count', f'{where}: other traces are left than those with more events')


def j_ByVariants(ctx, st, b, a, where):
    first = {}
    for t in b.view:
        first.setdefault(tuple(e[0] for e in t), t)
    key = lambda t: str(t)
    same(sorted(first.values(), key=key), sorted(a.view, key=key), 'by_variants', f'{where}: not the first trace of every variant is left')


def j_Substitute(ctx, st, b, a, where):
    same([leaves(t) for t in b.view], a.view, 'substitute', f'{where}: other events than the underlying ones')


def j_FromActivities(ctx, st, b, a, where):
    out = []
    for t, v, real in zip(b.inst, b.view, b.log):
        at = 0
        row = []

        def gap(lo, hi):
            if st['strategy'] == 2:
                row.extend(v[lo:hi])
            elif st['strategy'] == 1 and hi > lo:
                row.append(['UndefinedActivity', None])
        for i in t:
            gap(at, i.start_pos)
            row.append([i.node.unique_name() if st['hashes'] else i.node.name, v[i.start_pos:i.start_pos + i.length]])
            at = i.start_pos + i.length
        gap(at, len(v))
        out.append(row)
    same(out, a.view, 'abstraction', f'{where}: the new log is not the old one with instances replaced')
    for t, v, new in zip(b.inst, b.payload, a.log):
        ab = [e for e in new if 'UnderlyingActivities' in e.payload and 'UnderlyingEvents' in e.payload]
        fresh = [e for e in ab if not any(e.payload is p for p in v)]
        for i in t:
            below = [x for p in v[i.start_pos:i.start_pos + i.length] for x in p.get('UnderlyingActivities', [])]
            want = [id(x) for x in below + [i.node]]
            need(any([id(x) for x in e['UnderlyingActivities']] == want for e in fresh), 'underlying_activities',
                 f'{where}: the event of {i.node.name} does not list the activities below it')
            ctx.probe('abstracted')
    if st['strategy'] == 2:
        same([leaves(t) for t in b.view], [leaves(t) for t in a.view], 'conservation', f'{where} lost or invented events')


def shape(v, names):
    return [[e[0] if names else None, shape(e[1], names) if isinstance(e[1], list) else e[1]] for e in v]


def j_UntilNoMore(ctx, st, b, a, where):
    same([leaves(t) for t in b.view], [leaves(t) for t in a.view], 'conservation', f'{where} lost or invented events')
    # the same as discovering and abstracting again and again
    if st['hashes'] and any(e[0].startswith('Activity_') for t in b.view for e in leaves(t)):
        return   # activities are numbered through the process: one of them may have the name of an event of the log
    m = legacy.mods()
    rounds, lg, level = [], b.log, st['level']
    kind = next(k for k in range(3) if kind_of({'kind': k}) == 0)
    while True:
        r = legacy.build({**st, 's': 'FromRepeats', 'kind': kind, 'level': level})(legacy.start(lg))
        if not sum(map(len, m.acc.traces_activities(r))):
            break
        new = m.acc.log(legacy.build({**st, 's': 'FromActivities', 'strategy': 2})(r))
        rounds += [('before', lg), ('after', new)]
        done = sum(map(len, new)) == sum(map(len, lg))
        lg = new
        level += st['inc']
        if done:
            break
    named = not st['hashes']
    pic = lambda x: [shape(t, named) for t in view(x)]
    same(pic(lg), [shape(t, named) for t in a.view], 'until_no_more', f'{where}: not the log of discovering as long as there is something to find')
    levels = lambda x: [[[n.activity_level for n in e.payload.get('UnderlyingActivities', [])] for e in t] for t in x]
    same(levels(lg), levels(a.log), 'until_no_more', f'{where}: activities of other levels than those of discovering again and again')
    if st.get('hooks'):
        same([(k, pic(x)) for k, x in rounds], [(k, [shape(t, named) for t in v]) for k, v in legacy.record], 'until_no_more',
             f'{where}: the pipelines around the creation of logs saw other logs')
    ctx.probe('abstracted logs')


# -- discovery
def classes(b, ex):
    return [[eclass(e[0], ex) for e in t] for t in b.view]


def occurrences(t, w):
    return [i for i in range(len(t) - len(w) + 1) if t[i:i + len(w)] == w]


def repeats_of(t, kind):
    """maximal (0), super-maximal (1), near-super-maximal (2) repeats of a sequence, by their definitions"""
    n, out = len(t), set()
    for i in range(n):
        for ln in range(1, n - i):
            w = t[i:i + ln]
            o = occurrences(t, w)
            if len(o) > 1 and len({t[k - 1] if k else None for k in o}) > 1 and len({t[k + ln] if k + ln < n else None for k in o}) > 1:
                out.add(tuple(w))
    if kind == 1:
        return {w for w in out if not any(w != v and occurrences(list(v), list(w)) for v in out)}
    if kind == 2:
        iv = [(i, i + len(w), w) for w in out for i in occurrences(t, list(w))]
        return {w for x, y, w in iv if not any(c <= x and y <= d and (c, d) != (x, y) for c, d, _ in iv)}
    return out


def kind_of(st):
    m = legacy.mods()
    r = m.pr.RepeatActivitiesSource
    k = r(st['kind'])
    return {r.MaximalRepeats: 0, r.SuperMaximalRepeats: 1, r.NearSuperMaximalRepeats: 2}[k]


def arrays_of(t, most, primitive):
    """stretches (of 2 to most-1 events) repeated right where they first appear"""
    out = set()
    run = lambda i, ln: t[i + ln:i + 2 * ln] == t[i:i + ln] and i + 2 * ln <= len(t)
    for ln in range(2, most):
        for i in range(len(t) - 2 * ln + 1):
            if run(i, ln) and occurrences(t, t[i:i + ln])[0] == i and not (primitive and any(run(i, k) for k in range(2, ln))):
                out.add(tuple(t[i:i + ln]))
    return out


def j_DiscoverRepeats(ctx, st, b, a, where):
    cl = classes(b, st['ex'])
    need(len(a.patterns) == len(cl), 'patterns', f'{where}: patterns for {len(a.patterns)} of {len(cl)} traces')
    for t, ps in zip(cl, a.patterns):
        for p in ps:
            sub = t[p.first_pos:p.first_pos + p.length]
            need(p.first_pos >= 0 and len(sub) == p.length, 'bounds', f'{where}: a repeat outside its trace')
            n = sum(t[i:i + p.length] == sub for i in range(len(t)))
            need(n > 1, 'no_repeat', f'{where}: {sub} is reported as repeated but occurs {n} times in {t}')
            ctx.probe('repeats')
        got = [tuple(t[p.first_pos:p.first_pos + p.length]) for p in ps]
        want = repeats_of(t, kind_of(st))
        need(len(got) == len(set(got)) and set(got) == want, 'repeats', f'{where}: repeats {sorted(got)} of {t} instead of {sorted(want)}')


def j_DiscoverTandemArrays(ctx, st, b, a, where):
    cl = classes(b, st['ex'])
    prim = legacy.mods().pm.TandemArrayKind(st['kind']) == legacy.mods().pm.TandemArrayKind.PrimitiveArray
    need(len(a.patterns) == len(cl), 'patterns', f'{where}: patterns for {len(a.patterns)} of {len(cl)} traces')
    for t, ps in zip(cl, a.patterns):
        for p in ps:
            sub = t[p.first_pos:p.first_pos + p.length]
            need(p.first_pos >= 0 and p.repeat_count > 1 and
                 t[p.first_pos:p.first_pos + p.length * p.repeat_count] == sub * p.repeat_count, 'no_array',
                 f'{where}: {sub} is not repeated {p.repeat_count} times at {p.first_pos} of {t}')
            end = p.first_pos + p.length * p.repeat_count
            need(t[end:end + p.length] != sub, 'short_array', f'{where}: the array of {sub} at {p.first_pos} of {t} goes on')
            need(2 <= p.length < st['max'], 'array_length', f'{where}: an array of {p.length} events, allowed are 2 to {st["max"] - 1}')
            if prim:
                need(not any(p.length % k == 0 and sub == sub[:k] * (p.length // k) for k in range(2, p.length)), 'not_primitive',
                     f'{where}: {sub} is itself an array')
            ctx.probe('arrays')
        got = [tuple(t[p.first_pos:p.first_pos + p.length]) for p in ps]
        need(len(got) == len(set(got)), 'arrays', f'{where}: one array is reported twice: {got}')
        miss = arrays_of(t, st['max'], prim) - set(got)
        need(not miss, 'arrays', f'{where}: arrays of {sorted(miss)} in {t} are missing')


def j_DiscoverRepeatsSets(ctx, st, b, a, where):
    cl = classes(b, st['ex'])
    want = {frozenset(cl[i][p.first_pos:p.first_pos + p.length]) for i, ps in enumerate(b.patterns) for p in ps}
    got = [frozenset(cl[s.trace_index][s.first_pos:s.first_pos + s.length]) for s in a.sets]
    need(len(got) == len(set(got)), 'sets', f'{where}: one set of classes is listed twice')
    need(set(got) == want, 'sets', f'{where}: sets {sorted(map(sorted, set(got) ^ want))} are missing or too many')


def forest(ctx, acts, known, where):
    """children are inside their parents; no node twice; only classes of the log"""
    seen = []
    every = nodes_of(acts)
    once = len({ncls(n) for n in every}) == len(every)   # sets of one extractor, activities of another may coincide
    if known is not None and once:
        for n in acts:
            need(not any(ncls(n) < ncls(x) for x in every), 'forest', f'{where}: {n.name} is on top, though another activity holds it')
    for n in every:
        need(not any(n is x for x in seen), 'forest', f'{where}: activity {n.name} is in the hierarchy twice')
        seen.append(n)
        if known is not None:
            need(ncls(n) <= known, 'classes', f'{where}: activity {n.name} has classes that are not in the log')
            need(n.length == len(ncls(n)), 'classes', f'{where}: activity {n.name} counts {n.length} classes')
            for c in n.child_nodes:
                need(ncls(c) <= ncls(n), 'forest', f'{where}: {c.name} is below {n.name}')
                near = min(len(ncls(x)) for x in every if ncls(c) < ncls(x)) if once else 0
                need(not once or len(ncls(n)) == near, 'forest', f'{where}: {c.name} is below {n.name}, though a smaller activity holds it')
        ctx.probe('activities')
    return seen


def named(st, classes):
    return ('N|' if st.get('namer') else '') + '::'.join(sorted(set(classes)))


def j_AllPatterns(ctx, st, b, a, where):
    need(len(a.patterns) == len(b.view), 'patterns', f'{where}: patterns for {len(a.patterns)} of {len(b.view)} traces')
    for t, ps in zip(b.view, a.patterns):
        at = 0
        for p in ps:
            need(p.first_pos >= at and p.length > 0 and p.first_pos + p.length <= len(t), 'bounds',
                 f'{where}: pattern {p.first_pos}+{p.length} of {len(t)} events overlaps another one or leaves the trace')
            at = p.first_pos + p.length


def found(traces, merged, words):
    """the sets of classes of the words found in every trace or in all of them one after another"""
    if merged:
        traces = [[c for i, t in enumerate(traces) for c in t + [('end', i)]]]
    return {frozenset(w) for t in traces for w in words(t)}


def j_DiscoverActivities(ctx, st, b, a, where):
    cl = classes(b, st['ex'])
    want = sorted(named(st, cl[s.trace_index][s.first_pos:s.first_pos + s.length]) for s in b.sets)
    known = {c for t in cl for c in t} if plain_names(b) else None
    got = forest(ctx, a.acts, known, where)
    same(want, sorted(n.name for n in got), 'activities', f'{where}: not one activity for every repeat set')
    need(all(n.activity_level == st['level'] for n in got), 'level', f'{where}: activities of another level')


def covered(t):
    return {i for x in t for i in range(x.start_pos, x.start_pos + x.length)}


def placed(ctx, b, a, where, exs, pool, narrow, minlen, old=None):
    """instances in their traces; new ones only where nothing was, of activities there are, made of their classes"""
    plain = plain_names(b)
    need(len(a.inst) == len(b.view), 'instances', f'{where}: instances for {len(a.inst)} of {len(b.view)} traces')
    allnodes = nodes_of(pool)
    for ti, (t, v) in enumerate(zip(a.inst, b.view)):
        at = 0
        for x in t:
            need(x.start_pos >= at and x.length >= 1 and x.start_pos + x.length <= len(v), 'overlap',
                 f'{where}: instance {x.start_pos}+{x.length} in trace {ti} of {len(v)} events overlaps another one or leaves the trace')
            at = x.start_pos + x.length
        prev = old[ti] if old is not None else []
        have = [[id(x.node), x.start_pos, x.length] for x in t]
        for x in prev:
            need([id(x.node), x.start_pos, x.length] in have, 'lost_instance', f'{where}: the instance of {x.node.name} at '
                 f'{x.start_pos} of trace {ti} is gone')
        oldkeys = [[id(x.node), x.start_pos, x.length] for x in prev]
        for x in t:
            if [id(x.node), x.start_pos, x.length] in oldkeys:
                continue
            need(any(x.node is n for n in (allnodes if narrow else pool)), 'foreign', f'{where}: an instance of {x.node.name}, which is '
                 f'not among the activities')
            need(x.length >= minlen, 'filtered', f'{where}: an instance of {x.length} events passed the filter of {minlen}')
            if plain:
                sl = [e[0] for e in v[x.start_pos:x.start_pos + x.length]]
                cs = [frozenset(eclass(n, ex) for n in sl) for ex in exs]
                need(any(c <= ncls(x.node) for c in cs), 'not_of_activity', f'{where}: events {sl} are taken for {x.node.name}')
                if narrow and len(exs) == 1:
                    for d in nodes_of(x.node.child_nodes):
                        need(not cs[0] <= ncls(d) < ncls(x.node), 'not_narrow', f'{where}: {sl} is taken for {x.node.name} instead of {d.name}')
            ctx.probe('instances')


def complete(b, a, where, ex, pool, gaps_from=None):
    """no event of a known class is left without an activity"""
    if not plain_names(b):
        return
    known = {c for n in pool for c in ncls(n)}
    for ti, (t, v) in enumerate(zip(a.inst, b.view)):
        cov = covered(t)
        for i, e in enumerate(v):
            if i not in cov:
                need(eclass(e[0], ex) not in known, 'unattached', f'{where}: event {i} ({e[0]}) of trace {ti} belongs to an activity '
                     f'but to no instance')


def reading(cl, pool, narrow, minlen):
    """the trace read from left to right: the smallest activity that holds the event, grown as long as one no smaller holds all"""
    order = sorted(pool, key=lambda n: (len(ncls(n)), n.name))
    out, i = [], 0
    while i < len(cl):
        cur = next((n for n in order if cl[i] in ncls(n)), None)
        if cur is None:
            i += 1
            continue
        start, have = i, {cl[i]}
        i += 1
        while i < len(cl):
            if cl[i] not in ncls(cur):
                cur2 = next((n for n in order if len(ncls(n)) >= len(ncls(cur)) and have | {cl[i]} <= ncls(n)), None)
                if cur2 is None:
                    break
                cur = cur2
            have.add(cl[i])
            i += 1
        if narrow:
            todo, fit = list(cur.child_nodes), []
            while todo:
                n = todo.pop(0)
                if have <= ncls(n):
                    fit.append(n)
                    todo += n.child_nodes
            cur = min(fit, key=lambda n: len(ncls(n)), default=cur)
        if i - start >= minlen:
            out.append([cur.name, start, i - start])
    return out


def read_right(st, ex, b, a, where, pool, old=None):
    if not plain_names(b):
        return
    for ti, (t, cl) in enumerate(zip(a.inst, classes(b, ex))):
        want = []
        if old is None:
            want = reading(cl, pool, st['narrow'], st['minlen'])
        else:
            at = 0
            for x in old[ti] + [None]:
                end = x.start_pos if x else len(cl)
                if at < end and end - at >= st['minev']:
                    want += [[n, at + p, ln] for n, p, ln in reading(cl[at:end], pool, st['narrow'], st['minlen'])]
                if x:
                    want.append([x.node.name, x.start_pos, x.length])
                    at = x.start_pos + x.length
        same(want, [[x.node.name, x.start_pos, x.length] for x in t], 'instances', f'{where}: trace {ti} {cl} is not read into the '
             f'instances its activities allow')


def j_DiscoverActivitiesInTraces(ctx, st, b, a, where):
    read_right(st, st['ex'], b, a, where, a.acts)
    placed(ctx, b, a, where, [st['ex']], a.acts, st['narrow'], st['minlen'])
    if st['minlen'] == 1:
        complete(b, a, where, st['ex'], a.acts)


def j_From(ctx, st, b, a, where):
    cl = classes(b, st['ex'])
    got = forest(ctx, a.acts, {c for t in cl for c in t} if plain_names(b) else None, where)
    need(all(n.activity_level == st['level'] for n in got), 'level', f'{where}: activities of another level')
    j_DiscoverActivitiesInTraces(ctx, st, b, a, where)
    if st.get('merged'):
        want = found(cl, True, lambda t: repeats_of(t, kind_of(st)))
        same(sorted(named(st, w) for w in want), sorted(n.name for n in got), 'activities', f'{where}: not one activity for every '
             'set of classes repeated in the merged traces')
        return
    # the composite is the composition of its parts
    first = {'s': 'DiscoverRepeats', 'kind': st['kind'], 'ex': st['ex']} if st['s'] == 'FromRepeats' else \
        {'s': 'DiscoverTandemArrays', 'kind': st['kind'], 'max': st['max'], 'ex': st['ex']}
    chain = [first, {'s': 'DiscoverRepeatsSets', 'ex': st['ex']}, {'s': 'DiscoverActivities', 'ex': st['ex'], 'level': st['level'],
                                                                   'namer': st.get('namer')},
             {'s': 'DiscoverActivitiesInTraces', 'ex': st['ex'], 'narrow': st['narrow'], 'minlen': st['minlen']}]
    o = call(legacy.run_chain, chain, legacy.start(b.log))
    if not o.ok:
        raise Violation('failed', f'{where}: the parts of it {o.brief()}')
    m = legacy.mods()
    same(legacy.inst_view(m.acc.traces_activities(o.value)), a.ivals, 'composite', f'{where} gives other instances than its parts')
    same([legacy.node_view(n) for n in m.acc.activities(o.value)], [legacy.node_view(n) for n in a.acts], 'composite',
         f'{where} gives other activities than its parts')
    ctx.probe('composites')


def adjusted(ctx, st, b, a, where, exs):
    old = b.acts or []
    need(len(a.acts) >= len(old) and all(x is y for x, y in zip(old, a.acts)), 'activities', f'{where}: the activities there were are gone')
    new = a.acts[len(old):]
    known = {eclass(e[0], ex) for t in b.view for e in t for ex in exs} if plain_names(b) else None
    for lv in sorted({n.activity_level for n in new}):
        forest(ctx, [n for n in new if n.activity_level == lv], known, where)
    placed(ctx, b, a, where, exs, a.acts, st['narrow'], st['minlen'], b.inst)
    if len(exs) == 1:
        read_right(st, exs[0], b, a, where, a.acts, b.inst or [[] for _ in b.view])
    if len(exs) == 1 and st['minlen'] == 1 and st['minev'] == 1:
        complete(b, a, where, exs[0], a.acts)


def j_Adjust(ctx, st, b, a, where):
    adjusted(ctx, st, b, a, where, [st['ex']])
    src = classes(b, st['ex'])
    if st['s'] == 'AdjustUnattached' and b.inst is not None:
        src = [[c for i, c in enumerate(t) if i not in covered(x)] for t, x in zip(src, b.inst)]
    want = found(src, st['merged'], lambda t: repeats_of(t, 0))
    same(sorted('::'.join(sorted(w)) for w in want), sorted(n.name for n in nodes_of(a.acts[len(b.acts or []):])), 'activities',
         f'{where}: not one new activity for every set of classes repeated')
    need(all(n.activity_level == st['level'] for n in nodes_of(a.acts[len(b.acts or []):])), 'level', f'{where}: activities of another level')


def j_SeveralLevels(ctx, st, b, a, where):
    adjusted(ctx, st, b, a, where, st['exs'])
    # one level after another
    m = legacy.mods()
    r = legacy.start(b.log)
    if b.acts is not None:
        r = r.with_activities(list(b.acts))
    if b.inst is not None:
        r = r.with_trace_activities([list(t) for t in b.inst])
    chain = [{**st, 's': 'Adjust' if st['all'] else 'AdjustUnattached', 'ex': ex, 'level': st['level'] + i} for i, ex in enumerate(st['exs'])]
    o = call(legacy.run_chain, chain, r)
    if not o.ok:
        raise Violation('failed', f'{where}: the levels of it {o.brief()}')
    same(legacy.inst_view(m.acc.traces_activities(o.value)), a.ivals, 'composite', f'{where} gives other instances than its levels')
    same([legacy.node_view(n) for n in m.acc.activities(o.value)], [legacy.node_view(n) for n in a.acts], 'composite',
         f'{where} gives other activities than its levels')
    new = nodes_of(a.acts[len(b.acts or []):])
    need(all(st['level'] <= n.activity_level < st['level'] + len(st['exs']) for n in new), 'level', f'{where}: activities of another level')
    if plain_names(b):
        for n in new:
            ex = st['exs'][n.activity_level - st['level']]
            need(ncls(n) <= {eclass(e[0], ex) for t in b.view for e in t}, 'classes', f'{where}: activity {n.name} of level '
                 f'{n.activity_level} has classes of another level')


def j_InUnattached(ctx, st, b, a, where):
    need(len(a.acts) == len(b.acts) and all(x is y for x, y in zip(a.acts, b.acts)), 'activities', f'{where}: changed the activities')
    adjusted(ctx, st, b, a, where, [st['ex']])
    for t, old, v in zip(a.inst, b.inst, b.view):
        cov = covered(old)
        gaps, run = [], []
        for i in range(len(v) + 1):
            if i < len(v) and i not in cov:
                run.append(i)
            elif run:
                gaps.append(run)
                run = []
        for g in gaps:
            if len(g) < st['minev']:
                need(not covered(t) & set(g), 'min_events', f'{where}: a gap of {len(g)} events got instances, {st["minev"]} needed')


def j_ClearActivities(ctx, st, b, a, where):
    same([[], [[] for _ in b.view], [], [[] for _ in b.view]], [a.acts, a.ivals, list(a.sets), [list(p) for p in a.patterns]], 'clear',
         f'{where} left something')


def j_LogsForActivities(ctx, st, b, a, where):
    want = {}
    for t, v in zip(b.inst, b.view):
        for x in t:
            if x.node.activity_level == st['level']:
                want.setdefault(x.node.name, []).append(
                    [[eclass(e[0], st['ex']), e[1]] for e in v[x.start_pos:x.start_pos + x.length]])
    same(want, {k: view(lg) for k, lg in a.logs.items()}, 'activity_logs', f'{where}: the logs are not the instances of their activities')


def j_LogsWithPromote(ctx, st, b, a, where):
    """instances of the wanted level, and lower ones that show all classes of their activity at that level"""
    top = len(st['exs']) - 1
    want = {}
    for t, v in zip(b.inst, b.view):
        for x in t:
            level = x.node.activity_level
            if level > top:
                continue
            evs = v[x.start_pos:x.start_pos + x.length]
            if level == top:
                rows = [[eclass(e[0], st['exs'][top]) if st['adjust'] else e[0], e[1]] for e in evs]
            else:
                up = []
                for e in evs:
                    n = e[0]
                    for ex in st['exs'][level:top + 1]:
                        n = eclass(n, ex)
                    up.append([n, e[1]])
                rs = x.node.repeat_set
                held = {eclass(e[0], st['exs'][top]) for e in b.view[rs.trace_index][rs.first_pos:rs.first_pos + rs.length]}
                if held != {e[0] for e in up}:
                    continue
                ctx.probe('promoted instances')
                rows = up if st['adjust'] else [list(e) for e in evs]
            want.setdefault(x.node.name, []).append(rows)
    same(want, {k: view(lg) for k, lg in a.logs.items()}, 'activity_logs', f'{where}: the logs are not the instances of their activities')


# -- mutations in place
def edited(st, p):
    p = dict(p)
    s = st['s']
    n = p['concept:name']
    if s in ('PreNames', 'PreEvents') or s == 'ApplyClass' and n not in st['names']:
        p['concept:name'] = eclass(n, st['ex'])
    if s == 'PreEvents':
        p['pre'] = 1
    if s == 'NoLifecycle':
        p.pop('lifecycle:transition', None)
    return p


def flat(p):
    return {k: ([ids(u) for u in v] if k == 'UnderlyingEvents' else [id(x) for x in v] if k == 'UnderlyingActivities' else v)
            for k, v in p.items()}


def j_mutate(ctx, st, b, a, where):
    want = [[flat(edited(st, p)) for p in t] for t in b.payload]
    if st['s'] == 'StartEnd':
        want = [[{'concept:name': 'ARTIFICIAL_START'}] + t + [{'concept:name': 'ARTIFICIAL_END'}] for t in want]
    if st['s'] == 'NameEvents':
        for t, row in zip(b.inst, want):
            for x in t:
                for i in range(x.start_pos, x.start_pos + x.length):
                    row[i]['activity'] = x.node.unique_name()
    same(want, [[flat(p) for p in t] for t in a.payload], 'mutation', f'{where}: the events are not the mutated ones')


GROUP = {'RemoveName': j_remove, 'RemoveNames': j_remove, 'RemovePred': j_remove, 'FromTandemArrays': j_From, 'FromRepeats': j_From,
         'AdjustUnattached': j_Adjust}
GROUP.update({s: j_filter for s in FILTER})
GROUP.update({s: j_mutate for s in legacy.MUTATE})
