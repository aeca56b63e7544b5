"""C18: activity graphs and event class graphs show exactly the hierarchy they were built from."""
import os

from .. import legacy, logs, render, runner, sched, seams
from ..client import diff
from ..core import Violation, call, oracle, where
from .c14 import Users, nodes_of

ID = 'C18'
RUNS = {'quick': 18000, 'thorough': 400000}
RULE = ('one evaluation = one history of discoveries, class trees and hierarchy graphs built, drawn, saved and displayed by 1-2 '
        'threads, with failing renderers, storage and user functions and user interrupts; distinct = different histories')
REAL = ['ficus.legacy.analysis.patterns.patterns_graphs', 'ficus.legacy.pipelines.analysis.patterns (graph parts, discovery parts)',
        'ficus.legacy.analysis.patterns.event_log_patterns build_class_tree', 'graphviz DOT building and render driver', 'IPython Image']
STUB = ['Graphviz executable (parses the DOT it is given, writes it back)', 'raw file I/O', 'notebook display', 'thread scheduler']
ASSUMPTIONS = ['nodes with the same shown name are one node of the picture', 'parallel edges are not counted',
               'labels hold no line breaks other than those that stand for the separator of activity names']
COUNT_ALL = True
SHRINK_KEEP = ('op', 's', 'ex', 'kind', 'fault')

ODD = ['A', 'B', 'Ü', 'имя', 'a b', 'x"y', "it's", '<a>', '<b>x</b>', 'a:b', 'a:n', '::', 'A=B', 'a->b', '0', '\\N', 'b\\', 'root', '%root',
       '%25', '', '#x', '//', '{', '}', ';', 'graph', 'node', 'a\\"b', '-', 'A::B', '&amp;', 'strict', '1.5']
ACTS = ['FromRepeats', 'FromTandemArrays', 'SeveralLevels', 'Adjust']
SHOW_A = ['ActsGraph', 'ActsGraphLevels', 'ActivityGraph']
SHOW_T = ['TreeGraph', 'ClassGraph']


def gen_show(rng, s):
    op = {'op': 'show', 's': s, 'root': rng.chance(0.5), 'save': rng.chance(0.6), 'file': rng.int(0, 3),
          'ext': rng.pick(['.gv', '', '.dot', '.x.gv']), 'dir': rng.pick(['', '', 'd/', 'ü d/e/']),
          'set': rng.pick([None, None, 'LR', 'BT']), 'name': rng.pick(['Activities Graph', 'G', 'имя', 'a"b'])}
    if s == 'ActsGraph':
        op['hashes'] = rng.chance(0.4)
    if s in ('ActsGraphLevels', 'ActivityGraph', 'ClassGraph'):
        op['creator'] = rng.weighted([(None, 3), ('upper', 1), ('len', 1), ('odd', 1)])
    if s == 'ActsGraphLevels':
        op['mutator'] = rng.chance(0.3)
    if s == 'ActivityGraph':
        op['pick'] = rng.int(0, 5)
    if s in ('ActivityGraph', 'ClassGraph'):
        op['ser'] = rng.chance(0.5)
    if rng.chance(0.35):
        op['fault'] = rng.pick(['renderer', 'renderer', 'disk', 'user', 'interrupt'])
        op['at'] = rng.int(1, rng.pick([3, 10, 60]))
        op['how'] = rng.pick(['exit', 'missing', 'partial', 'killed', 'interrupt'])
        op['what'] = rng.pick(['write', 'open_w', 'close', 'mkdir', 'open_r'])
    return op


def gen_thread(rng, faults=True):
    al = None if rng.chance(0.5) else rng.sample(ODD, rng.int(2, 6))
    names = legacy.gen_names(rng, most=4, longest=rng.pick([6, 10, 14]), alphabet=al)
    al = sorted({n for t in names for n in t}) or ['A']
    ops, acts, tree = [], False, False
    for i in range(rng.int(2, 7)):
        k = rng.weighted([('acts', 2), ('tree', 2), ('show', 5 if i else 0)])
        if k == 'acts':
            op = {'op': 'acts', 'st': legacy.gen_step(rng, rng.pick(ACTS), al)}
            if op['st']['s'] in ('FromRepeats', 'FromTandemArrays') and rng.chance(0.5):
                op['named'] = rng.sample(ODD, rng.int(1, 4))
            ops.append(op)
            acts = True
        elif k == 'tree':
            maps, cur = [], al
            for _ in range(rng.int(0, 3)):
                to = rng.pick([cur, al, rng.sample(ODD, 3)])
                mp = {n: rng.pick(to) for n in cur}
                maps.append(mp)
                cur = sorted(set(mp.values()))
            ops.append({'op': 'tree', 'maps': maps})
            tree = True
        elif acts or tree:
            op = gen_show(rng, rng.pick((SHOW_A if acts else []) + (SHOW_T if tree else [])))
            if not faults:
                op.pop('fault', None)
            ops.append(op)
    if ops[-1]['op'] != 'show':
        ops.append(gen_show(rng, rng.pick(SHOW_A if ops[-1]['op'] == 'acts' else SHOW_T)))
        if not faults:
            ops[-1].pop('fault', None)
    return {'names': names, 'ops': ops}


def generate(rng, tier):
    n = rng.weighted([(1, 5), (2, 2)])
    sc = {'threads': [gen_thread(rng, n == 1) for _ in range(n)], 'switches': sched.gen_switches(rng, 900) if n > 1 else [],
          'delay': rng.pick([0, 0.2, 5.0])}
    if n > 1 and rng.chance(0.4):
        sc['hot'] = sched.gen_hot(rng)
    return sc


# ---- what is to be seen --------------------------------------------------------------------------------------
def creator(kind):
    if kind == 'upper':
        return lambda n: n.name.upper()
    if kind == 'len':
        return lambda n: str(len(n.name) % 3)
    if kind == 'odd':
        return lambda n: ODD[sum(map(ord, n.name)) % len(ODD)]
    return lambda n: n.name


def forest(nodes, name):
    """(labels, edges between labels)"""
    labels, edges = set(), set()

    def walk(n):
        labels.add(name(n))
        for c in n.child_nodes:
            edges.add((name(c), name(n)))
            walk(c)
    for n in nodes:
        walk(n)
    return labels, edges


def expected(nodes, name, root):
    labels, edges = forest(nodes, name)
    labels = sorted(labels)
    if root and nodes:
        edges |= {(name(n), 'root') for n in nodes}
        labels = sorted(labels + ['root'])
    return labels, sorted(map(list, edges))


def seen(g):
    sh = render.shown(g)
    lab = {}
    for i, (kind, text, _) in sh['nodes'].items():
        if kind != 'text':
            raise Violation('graph', f'label {text!r} would be read as HTML')
        lab[i] = text
    return sorted(lab.values()), sorted(map(list, {(lab[a], lab[b]) for a, b, _ in sh['edges']}))


def compare(g, want, what, rankdir=None):
    with oracle('graph'):
        labels, edges = seen(g)
        d = diff(labels, want[0], 'nodes') or diff(edges, want[1], 'edges')
        if not d and rankdir and render.shown(g)['rankdir'] != rankdir:
            d = f'the attributes set by the user are not there: rankdir {render.shown(g)["rankdir"]}'
    if d:
        raise Violation('wrong_graph', f'{what}: {d}')


def read(data, what):
    try:
        fmt, _, g = render.read_rendered(data)
    except (render.DotError, ValueError) as e:
        raise Violation('broken_picture', f'{what}: {e}: {data[:100]!r}')
    if fmt != 'png':
        raise Violation('broken_picture', f'{what}: format {fmt}')
    return g


def check_tree(maps, names, nodes):
    """the class tree itself"""
    def level(n, d):
        if d == 0:
            if n.child_nodes:
                raise Violation('tree', f'{n.name!r} has children on the lowest level')
            leaves.append(n.name)
            return
        if not n.child_nodes:
            raise Violation('tree', f'class {n.name!r} has no members')
        for c in n.child_nodes:
            if maps[d - 1][c.name] != n.name:
                raise Violation('tree', f'{c.name!r} is below {n.name!r}, not {maps[d - 1][c.name]!r}')
            level(c, d - 1)
    leaves = []
    for n in nodes:
        level(n, len(maps))
    want = sorted({n for t in names for n in t})
    if sorted(leaves) != want:
        raise Violation('tree', f'event classes {sorted(leaves)} instead of {want}')
    tops = [n.name for n in nodes]
    if len(set(tops)) != len(tops):
        raise Violation('tree', f'classes are there twice: {tops}')


# ---- run -------------------------------------------------------------------------------------------------------
def execute(sc, ctx):
    root = runner.scratch()
    os.chdir(root)
    with seams.World(ctx, root=root) as w:
        w.renderer = render.Renderer(ctx, w, delay=sc['delay'])
        if len(sc['threads']) == 1:
            thread(ctx, w, root, 'main', '', sc['threads'][0])
            return
        w.sched = s = sched.Sched(ctx, sc['switches'], hot=sc.get('hot'))
        for i, t in enumerate(sc['threads']):
            s.spawn(f'T{i}', lambda i=i, t=t: thread(ctx, w, root, f'T{i}', f't{i}/', t))
        try:
            s.run()
        finally:
            w.sched = None
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc


def thread(ctx, w, root, tid, prefix, t):
    m = legacy.mods()
    users = Users(ctx)
    r = legacy.start(logs.build(logs.plain(t['names'])))
    kept = {}
    for op in t['ops']:
        if op['op'] == 'acts':
            part = legacy.build({**op['st'], 'named': op['named']} if 'named' in op else op['st'], root)
            o = call(part.execute, r)
            if not o.ok:
                ctx.ev('step fails', op['st']['s'], type(o.exc).__name__)
                return
            r = o.value
        elif op['op'] == 'tree':
            part = m.pg.BuildEventClassTree([(lambda n, mp=mp: mp[n]) for mp in op['maps']])
            o = call(part.execute, r)
            if not o.ok:
                raise Violation('failed', f'the class tree {o.brief()} ({where(o.exc)})')
            r = o.value
            with oracle('tree'):
                check_tree(op['maps'], t['names'], m.acc.event_class_tree(r))
            ctx.ev('tree', len(op['maps']))
        else:
            show(ctx, w, root, tid, prefix, op, r, users, kept)
    for p, want in kept.items():
        data = w.disk.peek(p)
        if data is None:
            raise Violation('lost_picture', f'{os.path.relpath(p, root)} was saved and has vanished')
        compare(read(data, 'a saved graph'), want, f'{os.path.relpath(p, root)} at the end')


def show(ctx, w, root, tid, prefix, op, r, users, kept):
    m = legacy.mods()
    s = op['s']
    base = None
    if op['save']:
        base = os.path.join(root, f'{prefix}{op["dir"]}g{op["file"]}{op["ext"]}')
        os.makedirs(os.path.dirname(base), exist_ok=True)
    setter = users.wrap((lambda g: g.attr(rankdir=op['set'])) if op['set'] else (lambda g: None))
    make = creator(op.get('creator'))
    named = users.wrap(make)
    with oracle('hierarchy'):
        acts = m.acc.activities(r) if s in SHOW_A else None
        if s == 'ActivityGraph' and not acts:
            return
        wants = {}      # path or None -> what is shown there
        if s == 'ActsGraph':
            label = (lambda n: str(hash(n))) if op['hashes'] else (lambda n: n.name.replace('::', '\n'))
            wants[base] = expected(acts, label, op['root'])
        elif s == 'ActsGraphLevels':
            stem, ext = os.path.splitext(base) if base else (None, None)
            by = {}
            for a in acts:
                by.setdefault(a.activity_level, []).append(a)
            for lv in sorted(by):
                p = None if base is None else f'{base}-{lv}-m' if op['mutator'] else f'{stem}_{lv}{ext}'
                wants[p if base else lv] = expected(by[lv], make, op['root'])
        elif s == 'ActivityGraph':
            lv = acts[op['pick'] % len(acts)].activity_level
            wants[base] = expected([a for a in acts if a.activity_level == lv], make, op['root'])
        else:
            wants[base] = expected(m.acc.event_class_tree(r), make, op['root'])
    parts = []
    if s == 'ActsGraph':
        parts = [m.pp.DrawActivitiesGraph(base, op['hashes'], op['root'], setter)]
    elif s == 'ActsGraphLevels':
        kw = {'save_path_mutator': users.wrap(lambda p, k: f'{p}-{k}-m')} if op['mutator'] else {}
        parts = [m.pg.DrawActivitiesGraphByEventClassLevels(base, add_root_node=op['root'], graph_attributes_setter=setter,
                                                            node_name_creator=named, **kw)]
    elif s == 'TreeGraph':
        parts = [m.pg.DrawEventClassTree(op['root'], base, setter)]
    elif s == 'ActivityGraph':
        parts = [m.pg.BuildActivityGraph(lv, op['name'], op['root'], setter, named), m.pg.DrawGraph(base)]
    else:
        parts = [m.pg.BuildEventClassGraph(op['name'], op['root'], setter, named), m.pg.DrawGraph(base)]
    if op.get('ser'):
        parts.insert(1, m.pg.SerializeGraph())
    part = m.pl.Pipeline(*parts)
    old = {p: w.disk.peek(p + '.png') for p in wants if isinstance(p, str)}
    for f in ([op['fault']] if 'fault' in op else []) + [None]:
        n0 = len([1 for t, _ in w.displayed if t == tid])
        rend, k0 = w.renderer, len(w.disk.fired)
        nf = len(rend.failed_in)
        fired = False
        if f == 'renderer':
            rend.faults[rend.n + 1 + op['at'] % 2] = op['how']
            o = call(part.execute, r)
            rend.faults.clear()
            fired = len(rend.failed_in) > nf
        elif f == 'disk':
            w.disk.plan_fault(op['what'], 'ENOSPC' if op['at'] % 2 else 'EACCES', 1 + op['at'] % 3)
            o = call(part.execute, r)
            w.disk.faults = []
            fired = len(w.disk.fired) > k0
        elif f == 'user':
            users.left = op['at']
            o = call(part.execute, r)
            fired = users.left is None
            users.left = None
        elif f == 'interrupt':
            with sched.InterruptAt(ctx, op['at']) as it:
                o = call(part.execute, r)
            fired = it.fired
        else:
            o = call(part.execute, r)
        ctx.ev(s, tid, 'ok' if o.ok else type(o.exc).__name__, fired)
        disp = [x for t, x in w.displayed if t == tid][n0:]
        if not o.ok:
            if not fired:
                raise Violation('failed', f'{s} {o.brief()} without a fault ({where(o.exc)})')
            for p in wants:
                if isinstance(p, str):
                    kept.pop(p + '.png', None)
            ctx.probe('failed')
            continue
        for p, want in wants.items():
            if not isinstance(p, str):
                continue
            data = w.disk.peek(p + '.png')
            if data is None:
                raise Violation('lost_picture', f'{s} reported success but {os.path.relpath(p, root)}.png is not there')
            compare(read(data, s), want, f'{s} in {os.path.relpath(p, root)}.png', op['set'])
            kept[p + '.png'] = want
            ctx.probe('saved')
        if base is None:
            if len(disp) != len(wants):
                raise Violation('display', f'{s} displayed {len(disp)} pictures instead of {len(wants)}')
            for x, want in zip(disp, wants.values()):
                with oracle('display'):
                    data = x.data
                compare(read(data, s), want, f'{s} as displayed', op['set'])
                ctx.probe('displayed')
        elif disp:
            raise Violation('display', f'{s} was saved and displayed too')
        if op.get('ser'):
            with oracle('serialized'):
                text = m.acc.serialized_graph(o.value)
            try:
                g = render.parse('digraph {' + '\n'.join(ln for ln in text.split('\n') if ln.strip() != '}') + '}')
            except render.DotError as e:
                raise Violation('serialized', f'{s}: the serialized graph is broken: {e}')
            compare(g, next(iter(wants.values())), f'{s} as serialized')
    if w.disk.open_files and w.sched is None:
        raise Violation('leak', f'files left open after {s}: {sorted(w.disk.open_files)}')
