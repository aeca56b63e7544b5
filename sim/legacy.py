"""Legacy pipeline parts as JSON specs: generation of meaningful chains, building the real parts, and reading results."""
import os
import re

from . import logs

# step -> (needs, gives); 'newlog' in gives: the result has another log and everything about the old one is stale
STEPS = {
    'DiscoverRepeats': ((), ('patterns',)), 'DiscoverTandemArrays': ((), ('patterns',)),
    'AllPatterns': (('patterns',), ('patterns',)), 'DiscoverRepeatsSets': (('patterns',), ('sets',)), 'DiscoverActivities': (('sets',), ('acts',)),
    'DiscoverActivitiesInTraces': (('acts',), ('inst',)),
    'FromTandemArrays': ((), ('acts', 'inst', 'patterns')), 'FromRepeats': ((), ('acts', 'inst', 'patterns')),
    'Adjust': ((), ('acts', 'inst')), 'AdjustUnattached': (('inst', 'acts'), ('acts', 'inst')),
    'SeveralLevels': ((), ('acts', 'inst')), 'InUnattached': (('acts', 'inst'), ('inst',)),
    'ClearActivities': ((), ('acts', 'inst', 'sets', 'patterns')),
    'LogsForActivities': (('inst',), ('logs',)), 'LogsWithPromote': (('inst', 'acts'), ('logs',)),
    'ClassTree': ((), ('tree',)), 'ClassGraph': (('tree',), ('graph',)), 'SerializeGraph': (('graph',), ('ser',)),
    'ActivityGraph': (('acts!',), ('graph',)),
    # printing
    'PrintActivities': (('acts',), ()), 'PrintUnattached': (('inst',), ()), 'PercentUnattached': (('inst',), ()),
    'PrintHashes': (('acts',), ()), 'PrintCount': (('acts',), ()), 'PrintUnderlying': ((), ()), 'PrintInfo': ((), ()),
    'PrintDFG': ((), ()),
    # drawing
    'Diversity': ((), ()), 'Histogram': ((), ()), 'Placement': ((), ()), 'PlacementPred': ((), ()), 'EntropyHist': ((), ()),
    'PosEntropyHist': ((), ()), 'FullDiagram': (('inst',), ()), 'ShortDiagram': (('inst',), ()), 'Patterns': (('patterns',), ()),
    'SinglePlacement': (('inst', 'acts!'), ()), 'TillEndDirect': ((), ()), 'TillEndIndirect': ((), ()),
    'ActsGraph': (('acts',), ()), 'ActsGraphLevels': (('acts',), ()), 'TreeGraph': (('tree',), ()), 'Graph': (('graph',), ()),
    # files
    'SaveXes': ((), ()), 'SaveNames': ((), ()), 'SaveActs': (('acts',), ()), 'SaveInst': (('inst',), ()),
    'SaveIdx': (('inst',), ()),
    # new logs
    'RemoveName': ((), ('newlog',)), 'RemoveNames': ((), ('newlog',)), 'RemovePred': ((), ('newlog',)),
    'PosDirect': ((), ('newlog',)), 'PosIndirect': ((), ('newlog',)), 'DfgDirect': ((), ('newlog',)),
    'DfgIndirect': ((), ('newlog',)), 'ByCount': ((), ('newlog',)), 'ByVariants': ((), ('newlog',)),
    'Substitute': ((), ('newlog',)), 'FromActivities': (('inst',), ('newlog',)), 'UntilNoMore': ((), ('newlog',)),
    # petri nets
    'NetInductive': ((), ('net',)), 'NetAlpha': ((), ('net',)), 'NetAlphaPlus': ((), ('net',)), 'NetHeuristic': ((), ('net',)),
}
# parts that edit the log they are given
MUTATE = {'PreNames': ((), ('newlog',)), 'PreEvents': ((), ('newlog',)), 'ApplyClass': ((), ('newlog',)), 'NoLifecycle': ((), ()),
          'StartEnd': ((), ('newlog',)), 'NameEvents': (('inst',), ())}
PRINT = [s for s in STEPS if s.startswith('Print') or s == 'PercentUnattached']
DRAW = ['Diversity', 'Histogram', 'Placement', 'PlacementPred', 'EntropyHist', 'PosEntropyHist', 'FullDiagram', 'ShortDiagram',
        'Patterns', 'SinglePlacement', 'TillEndDirect', 'TillEndIndirect']
GRAPHS = ['ActsGraph', 'ActsGraphLevels', 'TreeGraph', 'Graph']
FILES = ['SaveXes', 'SaveNames', 'SaveActs', 'SaveInst', 'SaveIdx']
NEWLOG = [s for s, (n, g) in STEPS.items() if 'newlog' in g]
DISCOVER = ['DiscoverRepeats', 'DiscoverTandemArrays', 'AllPatterns', 'DiscoverRepeatsSets', 'DiscoverActivities', 'DiscoverActivitiesInTraces',
            'FromTandemArrays', 'FromRepeats', 'Adjust', 'AdjustUnattached', 'SeveralLevels', 'InUnattached', 'ClearActivities',
            'LogsForActivities', 'LogsWithPromote', 'ClassTree', 'ClassGraph', 'SerializeGraph', 'ActivityGraph']
NETS = ['NetInductive', 'NetAlpha', 'NetAlphaPlus', 'NetHeuristic']
PICTURE = ['Diversity', 'Histogram', 'Placement', 'PlacementPred', 'EntropyHist', 'FullDiagram', 'ShortDiagram', 'Patterns',
           'SinglePlacement']
# parts that also take a function making the path to save to
MAKER = ['Diversity', 'FullDiagram', 'ShortDiagram', 'Patterns', 'SinglePlacement', 'PlacementPred', 'SaveInst']
EX = ['full', 'first', 'low']
STEPS.update(MUTATE)


ODD = ['', ' ', 'A', 'a', 'UndefinedActivity', 'FAKE_START', 'FAKE_END', 'None', '0', 'a::b', 'a b', 'root', 'Ü', '%s', '😀', '{}', 'ARTIFICIAL_START', 'Activity_', '_a', '$a$', r'$\q$', 'a $5']


LONG = ' is the name of a step as long as a sentence, with everything in it that somebody once found worth saying ' * 2


def gen_names(rng, *args, long=0.015, **kw):
    """Traces of plain names with repeated blocks in them (so that there is something to discover)."""
    out = short_names(rng, *args, **kw)
    if rng.chance(long):
        first = rng.chance(0.5)
        out = [[(n if first else '') + LONG + n for n in t] for t in out]
    return out


def short_names(rng, most=5, longest=12, alphabet=None, empty=0.1, big=0.012, odd=True, family=0.02):
    if rng.chance(big):
        return gen_big(rng)
    if rng.chance(family):
        return gen_family(rng)
    if alphabet is None and odd and rng.chance(0.08):
        alphabet = rng.sample(ODD, rng.int(2, 4))
    if alphabet is None and odd and rng.chance(0.05):
        # names of the same letters, which weak hashes take for one another
        alphabet = rng.sample([a + b for a in 'ABCDEFGH' for b in 'ABCDEFGH'] + ['AAB', 'ABA', 'BAA', 'ABC', 'CBA', 'BAC'], rng.int(3, 9))
    alphabet = alphabet or rng.pick([logs.PLAIN[:2], logs.PLAIN[:3], logs.PLAIN[:5], logs.PLAIN, ['Ax', 'Ay', 'Bx', 'By', 'ax']])
    blocks = [[rng.pick(alphabet) for _ in range(rng.int(1, 4))] for _ in range(rng.int(1, 3))]
    out = []
    for _ in range(rng.weighted([(0, 0.3), (1, 2), (2, 4), (3, 3), (most, 2)])):
        t = []
        if not rng.chance(empty):
            for _ in range(rng.int(1, 5)):
                if rng.chance(0.6):
                    t += rng.pick(blocks) * rng.weighted([(1, 4), (2, 2), (3, 1)])
                else:
                    t.append(rng.pick(alphabet))
        out.append(t[:longest])
        if rng.chance(0.3):
            out.append(list(t[:longest]))
    return out


def gen_family(rng):
    """repeats whose sets of names contain each other in many ways, and traces to be read with them"""
    alphabet = rng.pick([logs.PLAIN[:4], logs.PLAIN[:5], ['Ax', 'Ay', 'Bx', 'By', 'ax']])
    sep = iter('abcdefghijklmnopqrstuvwxyzαβγδεζηθικλμνξοπρστυφχψω')
    t = []
    for _ in range(rng.int(3, 7)):
        p = rng.sample(alphabet, rng.int(1, len(alphabet)))
        if rng.chance(0.2):
            p.append(rng.pick(p))
        for _ in range(2):
            t += [next(sep)] + p
    return [t] + [[rng.pick(alphabet) for _ in range(rng.int(1, 8))] for _ in range(rng.int(1, 3))]


def gen_big(rng):
    """many traces, long ones, or many names"""
    kind = rng.pick(['many', 'long', 'wide'])
    alphabet = logs.PLAIN[:rng.pick([2, 4])] if kind != 'wide' else [f'n{i}' for i in range(rng.int(12, 40))]
    blocks = [[rng.pick(alphabet) for _ in range(rng.int(2, 5))] for _ in range(rng.int(2, 4))]
    out = []
    for _ in range(rng.int(20, 70) if kind == 'many' else rng.int(1, 2)):
        t = []
        for _ in range(rng.int(0, 2) if kind == 'many' else rng.int(12, 24)):
            t += rng.pick(blocks) if rng.chance(0.5) else [rng.pick(alphabet) for _ in range(rng.int(1, 3))]
        out.append(t)
        if kind == 'long' and rng.chance(0.5):
            # all but the same
            t = list(t)
            if t:
                t[-1 if rng.chance(0.5) else rng.int(0, len(t) - 1)] = rng.pick(alphabet)
            out.append(t)
    return out


def gen_step(rng, s, names=None):
    names = names or logs.PLAIN
    st = {'s': s}
    ex = lambda: rng.weighted([('full', 4), ('first', 1), ('low', 1)])
    if s in ('DiscoverRepeats', 'FromRepeats'):
        st['kind'] = rng.int(0, 2)
    if s in ('DiscoverTandemArrays', 'FromTandemArrays'):
        st['kind'] = rng.int(0, 1)
        st['max'] = rng.pick([3, 5, 20])
    if s in ('DiscoverRepeats', 'FromRepeats', 'DiscoverTandemArrays', 'FromTandemArrays', 'DiscoverRepeatsSets',
             'DiscoverActivities', 'DiscoverActivitiesInTraces', 'Adjust', 'AdjustUnattached', 'InUnattached',
             'LogsForActivities', 'UntilNoMore'):
        st['ex'] = ex()
    if s in ('FromRepeats', 'Adjust', 'AdjustUnattached', 'SeveralLevels', 'UntilNoMore'):
        st['merged'] = rng.chance(0.4)
    if s in ('DiscoverActivities', 'FromRepeats', 'FromTandemArrays') and rng.chance(0.25):
        st['namer'] = rng.pick(['own', 'own', 'few'])
    if s in ('DiscoverActivities', 'FromRepeats', 'FromTandemArrays', 'Adjust', 'AdjustUnattached', 'LogsForActivities', 'UntilNoMore'):
        st['level'] = rng.weighted([(0, 4), (1, 1), (2, 1), (9, 0.5), (10, 0.5)])
    if s in ('DiscoverActivitiesInTraces', 'FromRepeats', 'FromTandemArrays', 'Adjust', 'AdjustUnattached', 'SeveralLevels',
             'InUnattached', 'UntilNoMore'):
        st['narrow'] = rng.chance(0.7)
        st['minlen'] = rng.weighted([(1, 4), (2, 1), (3, 1)])
    if s in ('Adjust', 'AdjustUnattached', 'SeveralLevels', 'InUnattached', 'UntilNoMore'):
        st['minev'] = rng.weighted([(1, 4), (2, 1), (3, 1)])
    if s == 'SeveralLevels':
        st['exs'] = rng.sample(EX, rng.int(1, 3))
        st['level'] = rng.weighted([(0, 4), (1, 1), (9, 1)])
        st['all'] = rng.chance(0.7)
    if s == 'LogsWithPromote':
        st['exs'] = rng.pick([['full'], ['full', 'low'], ['full', 'low', 'first']])
        st['adjust'] = rng.chance(0.6)
    if s == 'UntilNoMore':
        st['hashes'] = rng.chance(0.4)
        st['inc'] = rng.chance(0.4)
        st['hooks'] = rng.chance(0.4)
    if s == 'FromActivities':
        st['strategy'] = rng.weighted([(2, 4), (0, 1), (1, 1)])
        st['hashes'] = rng.chance(0.5)
    if s == 'ClassTree':
        st['exs'] = rng.sample(EX, rng.int(0, 2))
    if s in ('ClassGraph', 'ActivityGraph', 'ActsGraph', 'ActsGraphLevels', 'TreeGraph'):
        st['root'] = rng.chance(0.5)
    if s == 'ActsGraph':
        st['hashes'] = rng.chance(0.5)
    if s == 'PrintActivities':
        st['do'] = rng.chance(0.8)
    if s in ('Placement', 'PlacementPred', 'RemoveNames', 'RemovePred', 'PrintDFG'):
        st['names'] = rng.sample(names, rng.int(0, min(3, len(names)))) + (['absent'] if rng.chance(0.2) else [])
    if s == 'RemoveName':
        st['name'] = rng.pick(list(names) + ['absent'])
    if s in DRAW:
        st['legend'] = rng.chance(0.5)
        st['h'] = rng.weighted([(1, 3), (2, 1)])
        st['w'] = rng.weighted([(1, 3), (3, 1)])
        if rng.chance(0.4):
            st['title'] = rng.pick(['T', 'Заголовок', '_t', '$x$'])
        st['save'] = rng.chance(0.6)
    if s in MAKER and rng.chance(0.3):
        st['maker'] = True
    if s in DRAW + FILES + GRAPHS:
        st['file'] = rng.int(0, 5)
    if s in GRAPHS:
        st['save'] = rng.chance(0.7)
    if s == 'SinglePlacement':
        st['pick'] = rng.int(0, 5)
        st['diff'] = rng.chance(0.5)
    if s in ('TillEndDirect', 'TillEndIndirect'):
        st['metric'] = rng.int(1, 2)
    if s in ('PosDirect', 'PosIndirect', 'DfgDirect', 'DfgIndirect'):
        st['thr'] = rng.pick([-1, 0, 0.3, 0.7, 1.5, 4])
        if rng.chance(0.5):
            st['most'] = rng.int(1, 4)
    if s in ('PosDirect', 'PosIndirect') and rng.chance(0.5) or s in ('DfgDirect', 'DfgIndirect') and rng.chance(0.3):
        st['keep'] = rng.sample(names, rng.int(0, min(3, len(names))))
    if s in ('DfgDirect', 'DfgIndirect'):
        st['laplace'] = rng.chance(0.5)
    if s == 'DfgIndirect':
        st['top'] = rng.pick([0.05, 0.5, 1.0])
    if s == 'ByCount':
        st['min'] = rng.int(0, 4)
    if s in ('PreNames', 'PreEvents', 'ApplyClass'):
        st['ex'] = rng.pick(EX)
    if s == 'ApplyClass':
        st['names'] = rng.sample(names, rng.int(0, min(3, len(names))))
    return st


def gen_chain(rng, n, allowed, names=None, weights=None):
    """n steps whose needs are met by earlier ones."""
    have = set()
    out = []
    while len(out) < n:
        s = rng.pick(allowed)
        needs, gives = STEPS[s]
        missing = [x for x in needs if x.strip('!') not in have]
        if missing:
            if not rng.chance(0.7):
                continue
            for x in missing:
                x = x.strip('!')
                if x in have:
                    continue
                src = {'patterns': ['DiscoverRepeats', 'DiscoverTandemArrays'], 'acts': ['FromRepeats', 'FromTandemArrays', 'SeveralLevels'],
                       'inst': ['FromRepeats', 'FromTandemArrays', 'SeveralLevels'], 'tree': ['ClassTree'], 'graph': ['ClassGraph'],
                       'sets': ['DiscoverRepeatsSets']}[x]
                if x == 'sets' and 'patterns' not in have:
                    out.append(gen_step(rng, 'DiscoverRepeats', names))
                    have.add('patterns')
                if x == 'graph' and 'tree' not in have:
                    out.append(gen_step(rng, 'ClassTree', names))
                    have.add('tree')
                p = rng.pick(src)
                out.append(gen_step(rng, p, names))
                have |= set(STEPS[p][1])
        if 'acts!' in needs and any(o['s'] == 'ClearActivities' for o in out[-6:]):
            continue
        out.append(gen_step(rng, s, names))
        if 'newlog' in gives:
            have = set()
        else:
            have |= set(gives)
            if s in ('DiscoverActivities',):
                have.discard('inst')
            if s in ('DiscoverRepeats', 'DiscoverTandemArrays', 'AllPatterns'):
                have.discard('sets')
    return out


# ---- real parts --------------------------------------------------------------------------------------
_m = None


class Mods:
    pass


def mods():
    global _m
    if _m is None:
        m = Mods()
        from ficus.legacy.pipelines import pipelines as pl
        from ficus.legacy.pipelines.contexts import accessors as acc, part_results as pr, keys
        from ficus.legacy.pipelines.start import start_parts as st
        from ficus.legacy.pipelines.analysis import analysis_parts as an, high_level as hl
        from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp, patterns_graph_parts as pg, models as pm
        from ficus.legacy.pipelines.mutations import mutations_parts as mu
        from ficus.legacy.pipelines.filtering import filter_parts as fi
        from ficus.legacy.pipelines.serialization import pipeline_parts as se
        from ficus.legacy.pipelines.discovery import discovery_parts as di
        from ficus.legacy.analysis.patterns import patterns_models as am, util as au, event_log_patterns as ep
        from ficus.legacy import util
        for k, v in list(locals().items()):
            setattr(m, k, v)
        _m = m
    return _m


def extractor(kind):
    cn = 'concept:name'
    if kind == 'full':
        return lambda e: e[cn]
    if kind == 'first':
        return lambda e: e[cn][:1]
    if kind in ('one', 'half'):
        f = str_extractor(kind)
        return lambda e: f(e[cn])
    return lambda e: e[cn].lower()


def str_extractor(kind):
    return {'full': lambda s: s, 'first': lambda s: s[:1], 'low': lambda s: s.lower(), 'one': lambda s: 'one', 'half': lambda s: s if len(s) % 2 else s[:1] + s[:1]}[kind]


class NoPick(Exception):
    """A SinglePlacement on a log without activities: nothing to pick."""


def path(st, root, ext):
    return os.path.join(root, f'f{st["file"]}.{ext}')


def own_name(sub, log, ex):
    """names a user gives to activities"""
    return 'N|' + '::'.join(sorted({ex(e) for e in log[sub.trace_index][sub.first_pos:sub.first_pos + sub.length]}))


def few_names(sub, log, ex):
    """a user giving different activities the same name"""
    return f'N{len({ex(e) for e in log[sub.trace_index][sub.first_pos:sub.first_pos + sub.length]}) % 2}'


record = []


def watcher(what):
    m = mods()

    def pic(e):
        return [e['concept:name'], [pic(u) for u in e['UnderlyingEvents']] if 'UnderlyingEvents' in e else e['id'] if 'id' in e else None]

    class Watch(m.pl.InternalPipelinePart):
        def execute(self, r):
            record.append((what, [[pic(e) for e in t] for t in m.acc.log(r)]))
            return r
    return Watch()


def build(st, root='.', wrap=lambda f: f):
    """the real part for one step; wrap is applied to every function the user gives to it"""
    m = mods()
    s = st['s']
    ex = wrap(extractor(st['ex'])) if 'ex' in st else None
    strat = m.pp.ActivitiesDiscoveryStrategy
    merged = strat.DiscoverFromSingleMergedTrace if st.get('merged') else strat.DiscoverFromAllTraces
    flt = wrap((lambda info: info.length >= st['minlen']) if st.get('minlen', 1) > 1 else m.ep.default_activity_in_trace_filter)
    reps, arrs = m.pr.RepeatActivitiesSource, m.pm.TandemArrayKind
    png = path(st, root, 'png') if 'file' in st and st.get('save') else None
    if png is not None and st.get('maker'):
        png = wrap(lambda r, png=png: png if len(m.acc.log(r)) >= 0 else None)
    draw = dict(title=st.get('title'), plot_legend=st.get('legend', False), height_scale=st.get('h', 1), save_path=png)
    if s == 'DiscoverRepeats':
        return m.pp.DiscoverRepeats(reps(st['kind']), ex)
    if s == 'DiscoverTandemArrays':
        return m.pp.DiscoverTandemArrays(arrs(st['kind']), st['max'], ex)
    if s == 'AllPatterns':
        return m.pp.AddAllPatterns()
    namer = {'activity_name_creator': wrap(few_names if st['namer'] == 'few' else own_name)} if st.get('namer') else {}
    if st.get('named'):
        namer = {'activity_name_creator': wrap(lambda sub, lg, ex: st['named'][(sub.first_pos + 3 * sub.length + sub.trace_index) % len(st['named'])])}
    if s == 'DiscoverRepeatsSets':
        return m.pp.DiscoverRepeatsSets(ex)
    if s == 'DiscoverActivities':
        return m.pp.DiscoverActivities(st['level'], ex, **namer)
    if s == 'DiscoverActivitiesInTraces':
        return m.pp.DiscoverActivitiesInTraces(ex, flt, st['narrow'])
    if s == 'FromTandemArrays':
        return m.hl.DiscoverActivitiesFromTandemArrays(arrs(st['kind']), st['max'], st['level'], class_extractor=ex,
                                                       activity_in_trace_filter=flt, should_narrow_activity=st['narrow'], **namer)
    if s == 'FromRepeats':
        return m.hl.DiscoverActivitiesInstancesFromRepeats(reps(st['kind']), st['level'], merged, class_extractor=ex,
                                                           activity_in_trace_filter=flt, should_narrow_activity=st['narrow'], **namer)
    if s in ('Adjust', 'AdjustUnattached'):
        mode = m.pm.AdjustingMode.FromAllLog if s == 'Adjust' else m.pm.AdjustingMode.FromUnattachedSubTraces
        return m.hl.AdjustWithActivitiesFromUnattachedEvents(ex, st['level'], merged, st['minev'], mode, flt, st['narrow'])
    if s == 'SeveralLevels':
        mode = m.pm.AdjustingMode.FromAllLog if st['all'] else m.pm.AdjustingMode.FromUnattachedSubTraces
        return m.hl.DiscoverActivitiesForSeveralLevels([wrap(extractor(e)) for e in st['exs']], merged, st['level'], st['minev'], mode,
                                                       flt, st['narrow'])
    if s == 'InUnattached':
        return m.pp.DiscoverActivitiesInUnattachedSubTraces(ex, st['minev'], flt, st['narrow'])
    if s == 'ClearActivities':
        return m.pp.ClearActivities()
    if s == 'LogsForActivities':
        return m.pp.CreateLogsForActivities(st['level'], ex)
    if s == 'LogsWithPromote':
        return m.pp.CreateLogsForActivitiesWithPromote(len(st['exs']) - 1, [wrap(extractor(e)) for e in st['exs']], st['adjust'])
    if s == 'ClassTree':
        return m.pg.BuildEventClassTree([wrap(str_extractor(e)) for e in st['exs']])
    if s == 'ClassGraph':
        return m.pg.BuildEventClassGraph('G', st['root'])
    if s == 'ActivityGraph':
        class First(m.pl.InternalPipelinePart):
            def execute(self, r):
                acts = m.acc.activities(r)
                if not acts:
                    raise NoPick()
                return m.pg.BuildActivityGraph(acts[0].activity_level, 'G', st['root']).execute(r)
        return First()
    if s == 'SerializeGraph':
        return m.pg.SerializeGraph()
    if s == 'PrintActivities':
        return m.pp.PrintActivities(st['do'])
    if s == 'PrintDFG':
        return m.an.PrintDFG(wrap(lambda n: n not in st['names']))
    simple = {'PrintUnattached': m.pp.PrintUnattachedEvents, 'PercentUnattached': m.pp.CalculatePercentageOfUnattachedEvents,
              'PrintHashes': m.pp.PrintActivitiesNamesToHashes, 'PrintCount': m.pp.PrintFoundActivitiesCount,
              'PrintUnderlying': m.pp.PrintNumberOfUnderlyingEvents, 'PrintInfo': m.an.PrintEventLogInfo,
              'PosEntropyHist': m.an.DrawPosEntropyHistogram, 'Substitute': m.mu.SubstituteUnderlyingEvents,
              'ByVariants': m.fi.FilterTracesByVariants, 'NetInductive': m.di.DiscoverPetriNetInductive,
              'NetAlpha': m.di.DiscoverPetriNetAlpha, 'NetAlphaPlus': m.di.DiscoverPetriNetAlphaPlus,
              'NetHeuristic': m.di.DiscoverPetriNetHeuristic}
    if s in simple:
        return simple[s]()
    if s == 'Diversity':
        return m.an.TracesDiversityDiagram(width_scale=st['w'], **draw)
    if s == 'Histogram':
        return m.an.TracesHistogram(save_path=png, title=st.get('title'))
    if s == 'Placement':
        return m.an.EventsPlacement(set(st['names']), **draw)
    if s == 'PlacementPred':
        return m.an.DrawPlacementOfEvents(wrap(lambda n: n in st['names']), **draw)
    if s == 'EntropyHist':
        return m.an.DrawDefaultEntropyHistogram(save_path=png, title=st.get('title'))
    if s in ('FullDiagram', 'ShortDiagram'):
        c = m.pp.DrawFullActivitiesDiagram if s == 'FullDiagram' else m.pp.DrawShortActivitiesDiagram
        return c(width_scale=st['w'], **draw)
    if s == 'Patterns':
        return m.pp.DrawPatterns(False, width_scale=st['w'], **draw)
    if s == 'SinglePlacement':
        def pick(acts):
            if not acts:
                raise NoPick()
            return acts[st['pick'] % len(acts)]
        return m.pp.DrawSingleActivityPlacement(wrap(pick), st['diff'], **draw)
    if s in ('TillEndDirect', 'TillEndIndirect'):
        c = m.fi.DrawPosEntropyDirectTillEndFilteringDiagram if s == 'TillEndDirect' else m.fi.DrawPosEntropyIndirectTillEndFilteringDiagram
        return c(m.fi.TillEndFilteringMetricKind(st['metric']))
    gp = path(st, root, 'gv') if 'file' in st and st.get('save') else None
    if s == 'ActsGraph':
        return m.pp.DrawActivitiesGraph(gp, st['hashes'], st['root'])
    if s == 'ActsGraphLevels':
        return m.pg.DrawActivitiesGraphByEventClassLevels(gp, add_root_node=st['root'])
    if s == 'TreeGraph':
        return m.pg.DrawEventClassTree(st['root'], gp)
    if s == 'Graph':
        return m.pg.DrawGraph(gp)
    if s == 'SaveXes':
        return m.se.SaveEventLogToXes(wrap(lambda r: path(st, root, 'xes')))
    if s == 'SaveNames':
        return m.an.SaveAllEventNames(path(st, root, 'txt'))
    if s == 'SaveActs':
        return m.pp.SaveAllActivitiesNames(path(st, root, 'txt'))
    if s == 'SaveInst':
        return m.pp.SaveAllActivitiesInstancesNames(wrap(lambda: path(st, root, 'txt')) if st.get('maker') else path(st, root, 'txt'))
    if s == 'SaveIdx':
        return m.pp.WriteActivitiesInstancesIndices(path(st, root, 'txt'))
    if s == 'RemoveName':
        return m.mu.RemoveEventFromLogByName(st['name'])
    if s == 'RemoveNames':
        return m.mu.RemoveEventsFromLogByNames(st['names'])
    if s == 'RemovePred':
        return m.mu.RemoveEventsFromLogPredicate(wrap(lambda e: e['concept:name'] in st['names']))
    kw = {}
    if 'most' in st:
        kw['max_events_to_remove'] = st['most']
    if 'keep' in st:
        kw['untouchable_event_func'] = wrap(lambda n: n in st['keep'])
    if s == 'PosDirect':
        return m.fi.PosEntropyDirectFilter(st['thr'], **kw)
    if s == 'PosIndirect':
        return m.fi.PosEntropyIndirectFilter(st['thr'], **kw)
    if s in ('DfgDirect', 'DfgIndirect') and 'keep' in st:
        # only the function knows classes not to be removed
        from ficus.legacy.filtering import event_log_filters as ef
        kw.update(laplace=st['laplace'], threshold=st['thr'])

        class Filter(m.pl.InternalPipelinePart):
            def execute(self, r):
                lg = m.acc.log(r)
                return m.pr.PipelinePartResult().with_log(
                    ef.filter_events_default_entropy_direct(lg, **kw) if s == 'DfgDirect' else
                    ef.filter_events_default_entropy_indirect(lg, top_percent=st['top'], **kw))
        return Filter()
    if s == 'DfgDirect':
        return m.fi.DfgEntropyDirectFilter(st['thr'], st['laplace'], **kw)
    if s == 'DfgIndirect':
        return m.fi.DfgEntropyIndirectFilter(st['thr'], st['laplace'], top_percent=st['top'], **kw)
    if s == 'ByCount':
        return m.fi.FilterTracesByCount(st['min'])
    if s == 'FromActivities':
        return m.pp.CreateLogFromActivities(m.am.UndefinedActivityHandlingStrategy(st['strategy']), st['hashes'])
    if s == 'UntilNoMore':
        return m.hl.DiscoverActivitiesInstancesFromRepeatsUntilNoMore(
            ex, st['hashes'], merged, st['minev'], flt, st['narrow'], st['level'], st['inc'],
            before_log_creation_pipeline=m.pl.Pipeline(watcher('before')) if st.get('hooks') else None,
            after_log_creation_pipeline=m.pl.Pipeline(watcher('after')) if st.get('hooks') else None)
    if s == 'PreNames':
        return m.mu.PreprocessEventsNames(wrap(str_extractor(st['ex'])))
    if s == 'PreEvents':
        def mutate(e):
            e['concept:name'] = str_extractor(st['ex'])(e['concept:name'])
            e['pre'] = 1
        return m.mu.PreprocessEvents(wrap(mutate))
    if s == 'ApplyClass':
        return m.mu.ApplyClassExtractor(ex, wrap(lambda e: e['concept:name'] not in st['names']))
    if s == 'NoLifecycle':
        return m.mu.RemoveLifecycleTransitionsAttributes()
    if s == 'StartEnd':
        return m.mu.AddArtificialStartEndEvents()
    if s == 'NameEvents':
        return m.pp.AddActivityNameToAllEvents()
    raise AssertionError(s)


# ---- reading results ------------------------------------------------------------------------------------
def node_view(n):
    return [n.name, n.activity_level, n.length, sorted(n.set_of_events), [node_view(c) for c in n.child_nodes]]


def tree_view(n):
    return [n.name, [tree_view(c) for c in n.child_nodes]]


def inst_view(inst):
    return [[[i.node.name, i.node.activity_level, i.start_pos, i.length] for i in t] for t in inst]


def ev_view(e):
    """names with underlying structure"""
    if 'UnderlyingEvents' in e:
        return [e['concept:name'], [ev_view(u) for u in e['UnderlyingEvents']]]
    return e['concept:name']


def log_view(log):
    return [[ev_view(e) for e in t] for t in log]


def observe(r):
    """Everything a user can read from a pipeline result, as plain data."""
    m = mods()
    k = m.keys
    out = {}
    has = r.has_value
    if has(k.log_key):
        out['log'] = log_view(m.acc.log(r))
    if has(k.activities_key):
        out['acts'] = [node_view(n) for n in m.acc.activities(r)]
    if has(k.repeat_sets_key):
        out['sets'] = [[s.trace_index, s.first_pos, s.length] for s in m.acc.repeat_sets(r)]
    if has(k.traces_activities_key):
        out['inst'] = inst_view(m.acc.traces_activities(r))
    if has(k.patterns_key):
        out['patterns'] = [[[p.first_pos, p.length] for p in t] for t in m.acc.patterns(r)]
    if has(k.event_class_tree_key):
        out['tree'] = [tree_view(n) for n in m.acc.event_class_tree(r)]
    if has(k.activities_to_logs_key):
        out['logs'] = [[n, log_view(lg)] for n, lg in m.acc.activities_to_logs(r).items()]
    if has(k.serialized_graph_key):
        out['ser'] = m.acc.serialized_graph(r)
    if has(k.graph_key):
        out['graph'] = str(m.acc.graph(r))
    if has(k.petri_net_key):
        net = m.acc.petri_net(r)
        out['net'] = [sorted(str(t.label) for t in net.petri_net.transitions), len(net.petri_net.places), len(net.petri_net.arcs),
                      len(net.start_marking), len(net.end_marking)]
    return out


_act = re.compile(r'Activity_\d+')


def normal(x):
    """Activity_<n> renamed in order of appearance (the numbers go on counting within a process)."""
    seen = {}

    def sub(mt):
        return seen.setdefault(mt.group(0), f'Activity#{len(seen)}')

    def walk(v):
        if isinstance(v, str):
            return _act.sub(sub, v)
        if isinstance(v, list):
            return [walk(y) for y in v]
        if isinstance(v, dict):
            return {walk(k): walk(y) for k, y in v.items()}
        return v
    return walk(x)


def run_chain(chain, r, root='.', upto=None):
    for st in chain[:upto]:
        r = build(st, root).execute(r)
    return r


def start(log):
    m = mods()
    return m.pr.PipelinePartResult().with_log(log)
