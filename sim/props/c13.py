"""C13: local diagrams show every event and activity instance at its place, one colour per name and one name per colour."""
import os

from .. import legacy, logs, render, runner, sched, seams
from ..client import diff
from ..core import Violation, call, oracle

ID = 'C13'
RUNS = {'quick': 5500, 'thorough': 300000}
RULE = ('one evaluation = one simulated history of local diagrams drawn from one pipeline result with adversarial '
        'randomness, storage faults and interrupts in between; distinct = different histories')
REAL = ['ficus.legacy.analysis.event_log_analysis', 'ficus.legacy.analysis.patterns.patterns_graphs', 'ficus.legacy.util',
        'drawing parts', 'discovery parts', 'matplotlib artists']
STUB = ['matplotlib rasteriser (figures are read from their artists)', 'randomness', 'raw file I/O']
ASSUMPTIONS = ['a random source may repeat itself for a while', 'patterns given to be drawn are ordered and do not overlap',
               'custom activity name creators are not used']
COUNT_ALL = True
SHRINK_KEEP = ('op', 's', 'kind', 'exc')
SHOW = ['Diversity', 'Placement', 'PlacementPred', 'FullDiagram', 'ShortDiagram', 'SinglePlacement', 'Patterns']
BLACK = '#000000'
ODD = ['A', 'B', 'Ü', 'имя', 'a b', 'x"y', '', '<a>', 'UndefinedActivity ', 'A::B', '0', '_x', '_', '$a$', r'b $\q$', '$5', '__']


def generate(rng, tier):
    al = None if rng.chance(0.8) else rng.sample(ODD, rng.int(2, 5))
    names = [['Undefined' if n == 'UndefinedActivity' else n for n in t] for t in legacy.gen_names(rng, most=4, longest=10, alphabet=al)]
    al = al or sorted({n for t in names for n in t}) or ['A']
    ops = []
    disc = ['FromRepeats', 'FromTandemArrays', 'SeveralLevels', 'Adjust', 'AdjustUnattached', 'InUnattached', 'ClearActivities']
    have = False
    for _ in range(rng.int(1, 6)):
        k = rng.weighted([('draw', 6), ('discover', 2), ('abstract', 0.6), ('remove', 0.5)])
        if k == 'discover' or (not have and rng.chance(0.3)):
            s = rng.pick(disc[:3] if not have else disc)
            ops.append({'op': 'do', 'st': legacy.gen_step(rng, s, al)})
            have = True
        elif k == 'abstract' and have:
            ops.append({'op': 'do', 'st': dict(legacy.gen_step(rng, 'FromActivities', al), hashes=False)})
            have = False
        elif k == 'remove':
            ops.append({'op': 'do', 'st': legacy.gen_step(rng, 'RemovePred', al)})
            have = False
        else:
            s = rng.pick(SHOW if have else SHOW[:3] + ['Patterns'])
            op = {'op': 'draw', 'st': legacy.gen_step(rng, s, al), 'in': rng.weighted([('bare', 4), ('pipe', 2), ('copy', 2)])}
            if s == 'Patterns':
                op['cut'] = [rng.int(0, 3) for _ in range(8)]
                op['short'] = rng.chance(0.3)
            if rng.chance(0.15):
                op['exc'] = rng.weighted([('interrupt', 2), ('disk', 1)])
                op['at'] = rng.int(1, 120)
            ops.append(op)
    return {'names': names, 'ops': ops, 'seed': rng.seed(), 'adv': rng.weighted([(0, 2), (10, 2), (60, 3), (300, 2)]),
            'palette': rng.pick([[0], [0, 1], [255], [0, 255], [7, 8, 9], [0, 0, 0, 17]])}


def segments(n, parts, full, w):
    """[(width, name)] of a row: parts = [(start, length, name)] in order"""
    out, pos = [], 0
    for s, ln, name in parts:
        if pos < s:
            out.append(((s - pos if full else 1) * w, None))
        out.append(((ln if full else 1) * w, name))
        pos = s + ln
    if pos < n:
        out.append(((n - pos if full else 1) * w, None))
    return out


def expected(st, op, r):
    """rows of [(width, name or None)], names that are drawn black"""
    m = legacy.mods()
    names = logs.names_of(m.acc.log(r))
    w = st['w'] if st['s'] in ('Diversity', 'FullDiagram', 'ShortDiagram', 'Patterns') else 1
    if st['s'] in ('Diversity', 'Placement', 'PlacementPred'):
        return [[(w, n) for n in t] for t in names]
    if st['s'] == 'Patterns':
        return [segments(len(t), [(p.first_pos, p.length, tuple(t[p.first_pos:p.first_pos + p.length])) for p in ps], not op['short'], w)
                for t, ps in zip(names, m.acc.patterns(r))]
    inst = m.acc.traces_activities(r)
    if st['s'] == 'SinglePlacement':
        acts = m.acc.activities(r)
        one = acts[st['pick'] % len(acts)].name
        return [segments(len(t), [(i.start_pos, i.length, (one, k)) for k, i in enumerate(ii) if i.node.name == one], True, w)
                for t, ii in zip(names, inst)]
    return [segments(len(t), [(i.start_pos, i.length, i.node.name) for i in ii], st['s'] == 'FullDiagram', w)
            for t, ii in zip(names, inst)]


def execute(sc, ctx):
    m = legacy.mods()
    root = runner.scratch()
    os.chdir(root)
    with seams.World(ctx, root=root, rand_seed=sc['seed'], rand_adv=sc['adv'], rand_palette=sc['palette']) as w:
        w.renderer = render.Renderer(ctx, w)
        spec = logs.plain(sc['names'])
        for i, e in enumerate(e for t in spec['traces'] for e in t['events']):
            e['p'] = {'time:timestamp': ['d', f'2020-01-01T00:00:{i % 60:02d}']}
        r = legacy.start(logs.build(spec))
        known = {}      # name -> colour over everything drawn from this result
        for n, op in enumerate(sc['ops']):
            st = op['st']
            if op['op'] == 'do':
                o = call(legacy.build(st, root).execute, r)
                if not o.ok:
                    ctx.ev('step fails', st['s'], type(o.exc).__name__)
                    return
                if m.keys.cached_colors_key not in o.value.values:
                    known = {}          # a step that starts a new result starts new colours
                r = o.value
                continue
            draw(sc, ctx, w, r, op, known, root)


def cut(op, r):
    """ordered patterns that do not overlap, wherever the seed says"""
    m = legacy.mods()
    from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
    out = []
    for t in m.acc.log(r):
        ps, pos, i = [], 0, 0
        while pos < len(t) and i < len(op['cut']):
            ln = op['cut'][i]
            i += 1
            if i % 2 and ln:
                pos += ln
                continue
            ln = min(max(1, ln), len(t) - pos)
            if ln > 0:
                ps.append(SubArrayInEventLog(pos, ln))
                pos += ln
        out.append(ps)
    return out


def draw(sc, ctx, w, r, op, known, root):
    m = legacy.mods()
    st = op['st']
    if st['s'] == 'Patterns':
        r = r.with_patterns(cut(op, r))
        part = m.pp.DrawPatterns(op['short'], st.get('title'), st['legend'], st['h'], st['w'],
                                 legacy.path(st, root, 'png') if st['save'] else None)
    else:
        part = legacy.build(st, root)
    if st['s'] in ('FullDiagram', 'ShortDiagram', 'SinglePlacement') and not r.has_value(m.keys.traces_activities_key):
        return
    if st['s'] == 'SinglePlacement' and not m.acc.activities(r):
        return
    with oracle('setup'):
        rows = expected(st, op, r)
    if op['in'] == 'pipe':
        part = m.pl.Pipeline(part)
    elif op['in'] == 'copy':
        m.acc.cached_colors(r)          # the copies share the colours from here on
        part = m.pl.WithInputCopy(m.pl.Pipeline(part))
    nfig = len(w.figures)
    if op.get('exc') == 'interrupt':
        with sched.InterruptAt(ctx, op['at']) as it:
            o = call(part.execute, r)
        if it.fired:
            if o.ok:
                raise Violation('swallowed', 'a user interrupt during drawing was swallowed')
            learn(known, r)
            return
    elif op.get('exc') == 'disk' and st['save']:
        w.disk.plan_fault('open_w' if op['at'] % 2 else 'write', 'ENOSPC')
        k = len(w.disk.fired)
        o = call(part.execute, r)
        if len(w.disk.fired) > k:
            if o.ok:
                raise Violation('silent', 'a diagram that could not be written was reported as drawn')
            learn(known, r)
            return
    else:
        o = call(part.execute, r)
    if not o.ok:
        raise Violation('failed', f'drawing {st["s"]} {o.brief()}')
    figs = w.figures[nfig:]
    if len(figs) != 1:
        raise Violation('figure', f'{st["s"]} drew {len(figs)} figures')
    _, path, desc = figs[0]
    want = legacy.path(st, root, 'png') if st['save'] else None
    if (path is None) != (want is None) or (path and os.path.abspath(path) != os.path.abspath(want)):
        raise Violation('figure', f'{st["s"]} went to {path} instead of {want}')
    if want is not None and w.disk.peek(want) is None:
        raise Violation('figure', f'{st["s"]} reported success but {want} is not there')
    with oracle('figure'):
        judge(ctx, st, op, rows, desc, known, r)
    ctx.ev('drawn', st['s'], sum(len(x) for x in rows))


def learn(known, r):
    """after a failed drawing: colours handed out meanwhile are the user's too"""
    for k, v in r.values.get(legacy.mods().keys.cached_colors_key, {}).items():
        known.setdefault(k, v.upper())


def judge(ctx, st, op, rows, desc, known, r):
    if len(desc) != 1:
        raise Violation('figure', f'{len(desc)} axes in one diagram')
    ax = desc[0]
    h = st['h']
    rects = [x for x in ax['rects'] if x[2] > 0]
    want = []
    for y, row in enumerate(rows):
        x = 0
        for width, name in row:
            want.append([x, y * h, width, h, name])
            x += width
    if st['s'] in ('FullDiagram', 'ShortDiagram', 'Patterns', 'SinglePlacement'):
        # what stands for a trace without events is not specified (an undefined activity, here)
        empty = {y * h for y, row in enumerate(rows) if not row}
        rects = [x for x in rects if not (x[1] in empty and x[4] in (BLACK, known.get('UndefinedActivity')))]
    got = sorted(rects, key=lambda q: (q[1], q[0]))
    if len(got) != len(want):
        raise Violation('places', f'{st["s"]}: {len(got)} rectangles instead of {len(want)}: {got[:6]} / {want[:6]}')
    colours = {}
    for a, b in zip(got, want):
        if [float(v) for v in a[:4]] != [float(v) for v in b[:4]]:
            raise Violation('places', f'{st["s"]}: a rectangle at {a[:4]} instead of {b[:4]} for {b[4]!r}')
        name, c = b[4], a[4]
        black = name is None or (st['s'] == 'Placement' and name not in st['names']) or \
            (st['s'] == 'PlacementPred' and name not in st['names'])
        if black:
            # an abstracted log can hold undefined activities as events; drawn as such they have a colour of their own
            if c != BLACK and (name is not None or st['s'] == 'SinglePlacement' or c != known.get('UndefinedActivity')):
                raise Violation('colour', f'{st["s"]}: what is not shown is {c} instead of black')
            continue
        if c == BLACK and name == 'UndefinedActivity' and st['s'] in ('FullDiagram', 'ShortDiagram', 'SinglePlacement'):
            continue     # an activity made of the undefined ones of an abstracted log
        if c == BLACK:
            raise Violation('colour', f'{st["s"]}: {name!r} is drawn in the colour of undefined activities')
        if st['s'] == 'SinglePlacement':
            ctx.probe('placements')
            if not st['diff']:
                k = (b[1], 'single')
                if colours.setdefault(k, c) != c:
                    raise Violation('colour', f'{st["s"]}: one activity in two colours in one trace: {colours[k]}, {c}')
            else:
                k = (b[1], name)
                colours[k] = c
            continue
        if colours.setdefault(name, c) != c:
            raise Violation('colour', f'{st["s"]}: {name!r} is drawn in {colours[name]} and in {c}')
    if st['s'] == 'SinglePlacement':
        if st['diff']:
            rowsc = {}
            for (y, name), c in colours.items():
                if c in rowsc.setdefault(y, set()):
                    raise Violation('colour', f'two instances of one trace share the colour {c} though different colours were asked for')
                rowsc[y].add(c)
    else:
        back = {}
        for name, c in colours.items():
            if back.setdefault(c, name) != name:
                raise Violation('colour', f'{st["s"]}: {name!r} and {back[c]!r} are both {c}')
        if st['s'] != 'Patterns':
            for name, c in colours.items():
                if known.setdefault(name, c) != c:
                    raise Violation('colour', f'{st["s"]}: {name!r} is {c} but was {known[name]} in an earlier diagram')
                for other, oc in known.items():
                    if oc == c and other != name:
                        raise Violation('colour', f'{st["s"]}: {name!r} has the colour {c} that {other!r} has in an earlier diagram')
            ctx.probe('names coloured', len(colours))
    if st['legend'] and st['s'] != 'Patterns':
        shown = {}
        for a, b in zip(got, want):
            name = b[4][0] if st['s'] == 'SinglePlacement' and b[4] is not None else b[4]
            shown.setdefault(name, set()).add(a[4])
        leg = ax['legend'] or []
        texts = [t for t, _ in leg]
        if len(set(texts)) != len(texts):
            raise Violation('legend', f'{st["s"]}: a name twice in the legend: {texts}')
        by = dict((t, c) for t, c in leg)
        for name, cs in shown.items():
            if name is None:
                if not cs & set(by.values()):
                    raise Violation('legend', f'{st["s"]}: undefined activities are drawn ({sorted(cs)}) but not in the legend {leg}')
            elif name not in by:
                raise Violation('legend', f'{st["s"]}: {name!r} is drawn but not in the legend {texts}')
            elif by[name] not in cs:
                raise Violation('legend', f'{st["s"]}: the legend shows {by[name]} for {name!r}, drawn {sorted(cs)}')
        extra = [t for t in texts if t not in shown and by[t] not in (BLACK, known.get('UndefinedActivity'))]
        if extra:
            raise Violation('legend', f'{st["s"]}: the legend has {extra[0]!r}, which is not drawn')
    elif not st['legend'] and ax['legend']:
        raise Violation('legend', f'{st["s"]}: a legend was drawn though none was asked for')
    if st.get('title') is not None and st['title'] not in (ax['xlabel'], ax['title']):
        raise Violation('title', f'{st["s"]}: title {ax["xlabel"]!r} instead of {st["title"]!r}')
