"""C09: an exported graph or Petri net picture is complete and of that graph, or the old export stays and an error is
reported; concurrent exports do not mix and nothing is left in temporary storage."""
import contextlib
import io
import os
import threading
import warnings

from .. import legacy, logs, render, runner, sched, seams
from ..client import STRINGS, diff
from ..core import Violation, call, oracle, where

ID = 'C09'
RUNS = {'quick': 20000, 'thorough': 400000}
RULE = ('one evaluation = one simulated history of graph and Petri net exports by 1-3 threads with renderer and storage '
        'faults; distinct = different histories (renders, faults, hand-overs)')
REAL = ['ficus.legacy.discovery.graph', 'ficus.legacy.discovery.petri_net', 'graphviz DOT building and render driver',
        'tempfile', 'shutil']
STUB = ['Graphviz executable (parses the DOT it is given, writes it back)', 'raw file I/O', 'temporary name source',
        'thread scheduler', 'notebook display']
ASSUMPTIONS = ['temporary names may be reused as soon as they are free', 'the renderer writes its output before it exits',
               'temporary storage is of the same file system as the target or of another one']
COUNT_ALL = True
SHRINK_KEEP = ('t', 'kind', 'op', 'what', 'engine')


def gen_graph(rng):
    large = rng.chance(0.03)
    ids = rng.sample(range(1, 300), rng.int(20, 60) if large else rng.int(0, 5))
    lab = lambda: rng.pick(STRINGS + ['A', 'B\\N', '\\l', '<b>', '<i>x</i>', '&amp;', '"', 'ü', '']) + str(rng.int(0, 9))
    return {'what': 'graph', 'nodes': [[i, lab()] for i in ids],
            'edges': [[rng.pick(ids), rng.pick(ids), lab() if rng.chance(0.6) else rng.pick([None, ''])]
                      for _ in range(rng.int(30, 90) if large else rng.int(0, 5))] if ids else []}


def gen_net(rng):
    lab = lambda: rng.pick(STRINGS + ['A', '\\N', '<b>', '"', 'ü']) + str(rng.int(0, 9))
    large = rng.chance(0.03)
    places = [[i, lab()] for i in rng.sample(range(1, 99), rng.int(20, 60) if large else rng.int(1, 4))]
    arc = [100]

    def arcs():
        out = []
        for _ in range(rng.int(0, 2)):
            out.append([arc[0], rng.pick(places)[0]])
            arc[0] += 1
        return out
    trans = [[i, lab(), arcs(), arcs()] for i in rng.sample(range(1000, 2000), rng.int(10, 40) if large else rng.int(0, 3))]
    mark = lambda: [rng.pick(places)[0] for _ in range(rng.int(1, 2))] if rng.chance(0.7) else None
    return {'what': 'net', 'places': places, 'trans': trans, 'init': mark(), 'final': mark(), 'names': rng.chance(0.5),
            'ann': [[a, rng.pick(['1', '0.5', 'x"', '\\n'])] for a in range(100, arc[0]) if rng.chance(0.7)]
            if rng.chance(0.5) else None}


def gen_op(rng):
    op = gen_graph(rng) if rng.chance(0.5) else gen_net(rng)
    if rng.chance(0.9):
        op['path'] = rng.pick(['g', 'a/g', 'a/b/g', 'ü/g 1', 'h', 'v1.2/g', 'a.b', '-x/g', '.h']) + '.' + rng.pick(['png', 'svg', 'pdf'])
        if rng.chance(0.05):
            op['path'] = rng.pick(['g', 'a.b/g', 'a/g.', 'h.nosuch', 'g.p ng'])      # nothing can be drawn as that
    op['bare'] = rng.chance(0.3)
    op['engine'] = rng.pick(['dot', 'dot', 'neato', 'circo'])
    op['bg'] = rng.pick(['white', 'red', 'transparent'])
    op['rankdir'] = rng.pick(['LR', 'TB'])
    op['name'] = rng.pick(['petri_net', 'my graph', 'имя', 'a"b'])
    return op


def generate(rng, tier):
    n = rng.weighted([(1, 4), (2, 4), (3, 2)])
    threads = [[gen_op(rng) for _ in range(rng.int(1, 3))] for _ in range(n)]
    sc = {'threads': threads, 'switches': sched.gen_switches(rng, 900) if n > 1 else [], 'reuse': rng.chance(0.7),
          'render': [], 'disk': {}, 'delay': rng.pick([0, 0.2, 5.0])}
    if n > 1:
        # every thread writes its own files: who wins on one path is not specified
        for t, ops in enumerate(threads):
            for op in ops:
                if 'path' in op:
                    op['path'] = f't{t}/' + op['path'] if rng.chance(0.5) else op['path'].replace('.', f'{t}.')
    elif rng.chance(0.2):
        threads[0].insert(rng.int(0, len(threads[0])), gen_mined(rng))
    mode = rng.weighted([('none', 3), ('render', 4), ('disk', 3)])
    if rng.chance(0.4):
        sc['disk']['mounts'] = True
    if mode == 'render':
        for _ in range(rng.int(1, 2)):
            sc['render'].append({'nth': rng.int(1, 4), 'kind': rng.pick(['exit', 'missing', 'partial', 'killed'] +
                                                                         (['interrupt'] if n == 1 else []))})
    elif mode == 'disk':
        for _ in range(rng.int(1, 2)):
            op = rng.weighted([('write', 4), ('open_w', 2), ('mkdir', 2), ('rename', 2), ('open_r', 1), ('read', 1)])
            kind = rng.pick({'write': ['ENOSPC', 'EIO'], 'open_w': ['EACCES', 'EMFILE', 'ENOSPC'], 'mkdir': ['ENOSPC', 'EACCES'],
                             'rename': ['EACCES', 'EIO', 'ENOSPC'], 'open_r': ['EMFILE', 'EACCES'], 'read': ['EIO']}[op])
            sc['disk'].setdefault('faults', []).append({'op': op, 'nth': rng.int(1, 6), 'kind': kind, 'part': rng.pick([0, 0.5])})
    return sc


MINERS = {'inductive': ('NetInductive', ['noise']), 'alpha': ('NetAlpha', []), 'alpha+': ('NetAlphaPlus', []),
          'heuristic': ('NetHeuristic', ['dep', 'and', 'two'])}


def prepare():
    """pm4py walks sets of places, whose hash is their address: here it is the order they are first hashed in, per net"""
    from pm4py.objects.petri_net.obj import PetriNet
    if '_sim' in PetriNet.__dict__:
        return
    PetriNet._sim = seq = threading.local()

    def hashed(self):
        h = self.__dict__.get('_sim_h')
        if h is None:
            seq.n = getattr(seq, 'n', 0) + 1
            h = self.__dict__['_sim_h'] = seq.n
        return h

    def init(self, *args, _init=PetriNet.__init__, **kw):
        seq.n = 0
        _init(self, *args, **kw)

    PetriNet.__init__ = init
    for c in (PetriNet.Place, PetriNet.Transition, PetriNet.Arc):
        c.__hash__ = hashed


def gen_mined(rng):
    """a net mined from a local log by a part and drawn by the next"""
    miner = rng.pick(sorted(MINERS))
    op = {'what': 'mined', 'names': legacy.gen_names(rng, most=4, longest=6, empty=0) or [['A']], 'miner': miner,
          'opts': [rng.pick([0, 0.2, 0.5, 0.9]) for _ in MINERS[miner][1]], 'path': rng.pick(['g', 'h', 'ü 1']) + '.' + rng.pick(['png', 'svg', 'pdf']),
          'bare': rng.chance(0.3), 'engine': 'dot'}
    if rng.chance(0.3):
        del op['path']
    return op


def same_net(a, b):
    """equal up to the names of places"""
    def canon(g):
        sh = render.shown(g)
        col = {n: v for n, v in sh['nodes'].items()}
        for _ in range(3):
            col = {n: [sh['nodes'][n], sorted(str(col[x]) for x, y, _ in sh['edges'] if y == n),
                       sorted(str(col[y]) for x, y, _ in sh['edges'] if x == n)] for n in col}
        return sorted(map(str, col.values())), sh['nodes']
    (x, nx), (y, ny) = canon(a), canon(b)
    return None if x == y else f'{sorted(map(str, nx.values()))} instead of {sorted(map(str, ny.values()))} or other arcs'


def mined(op):
    """what pm4py itself mines and draws"""
    import pm4py
    from pm4py.visualization.petri_net import visualizer
    from pm4py.objects.log.obj import Event, EventLog, Trace
    lg = EventLog([Trace([Event({'concept:name': n}) for n in t]) for t in op['names']])
    o = op['opts']
    net = {'inductive': lambda: pm4py.discover_petri_net_inductive(lg, noise_threshold=o[0]), 'alpha': lambda: pm4py.discover_petri_net_alpha(lg),
           'alpha+': lambda: pm4py.discover_petri_net_alpha_plus(lg),
           'heuristic': lambda: pm4py.discover_petri_net_heuristics(lg, dependency_threshold=o[0], and_threshold=o[1], loop_two_threshold=o[2])}[op['miner']]
    return visualizer.apply(*net(), parameters={'format': 'png'}).source


def build(op):
    if op['what'] == 'mined':
        m = legacy.mods()
        cls = {'inductive': m.di.DiscoverPetriNetInductive, 'alpha': m.di.DiscoverPetriNetAlpha, 'alpha+': m.di.DiscoverPetriNetAlphaPlus,
               'heuristic': m.di.DiscoverPetriNetHeuristic}[op['miner']]
        kw = dict(zip({'inductive': ['noise_threshold'], 'heuristic': ['dependency_threshold', 'and_threshold', 'two_loops_threshold']}.get(op['miner'], []), op['opts']))

        def run(lg, export_path, **_):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                m.pl.Pipeline(cls(**kw), m.di.DrawPetriNet(export_path))(legacy.start(lg))
        return logs.build(logs.plain(op['names'])), run, {}
    if op['what'] == 'graph':
        from ficus.legacy.discovery.graph import Graph, GraphEdge, GraphNode, draw_graph
        g = Graph()
        g.nodes = [GraphNode(i, d) for i, d in op['nodes']]
        g.edges = [GraphEdge(a, b, d) for a, b, d in op['edges']]
        return g, draw_graph, {}
    from ficus.legacy.discovery import petri_net as pn
    net = pn.PetriNet()
    for i, n in op['places']:
        net.places[i] = pn.Place(i, n)
    for i, d, inc, outg in op['trans']:
        t = pn.Transition(i)
        t.data = d
        t.incoming_arcs = [pn.Arc(a, p, 1) for a, p in inc]
        t.outgoing_arcs = [pn.Arc(a, p, 1) for a, p in outg]
        net.transitions[i] = t
    mk = lambda ids: None if ids is None else pn.Marking([pn.SinglePlaceMarking(i, 1) for i in ids])
    net.initial_marking, net.final_marking = mk(op['init']), mk(op['final'])
    return net, pn.draw_petri_net, {'show_places_names': op['names'],
                                    'annotation': None if op['ann'] is None else {a: b for a, b in op['ann']}}


def expect(op):
    if op['what'] == 'graph':
        return ({str(i): ['text', d, 'circle'] for i, d in op['nodes']},
                sorted([str(a), str(b), d or ''] for a, b, d in op['edges']))
    nodes = {}
    for i, n in op['places']:
        if i in (op['init'] or ()):
            nodes[str(i)] = ['html', render.DOT, 'circle']
        elif i in (op['final'] or ()):
            nodes[str(i)] = ['html', render.DOT, 'doublecircle']
        else:
            nodes[str(i)] = ['text', n if op['names'] else '', 'circle']
    ann = dict((a, b) for a, b in op['ann'] or [])
    edges = []
    for i, d, inc, outg in op['trans']:
        nodes[str(i)] = ['text', d, 'box']
        edges += [[str(p), str(i), ann.get(a, '')] for a, p in inc]
        edges += [[str(i), str(p), ann.get(a, '')] for a, p in outg]
    return nodes, sorted(edges)


def compare(op, g):
    if op['what'] == 'mined':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return same_net(g, render.parse(op['dot']))
    nodes, edges = expect(op)
    sh = render.shown(g)
    d = diff(sh['nodes'], nodes, 'nodes') or diff(sh['edges'], edges, 'edges')
    if not d and (sh['bgcolor'] != op['bg'] or sh['rankdir'] != op['rankdir']):
        d = f'style {sh["bgcolor"]}/{sh["rankdir"]} instead of {op["bg"]}/{op["rankdir"]}'
    return d


def check_file(op, data, what):
    try:
        fmt, engine, g = render.read_rendered(data)
    except (render.DotError, ValueError) as e:
        raise Violation('broken_export', f'{what}: {e}: {data[:120]!r}')
    with oracle('export'):
        d = compare(op, g)
    if d:
        raise Violation('wrong_export', f'{what}: {d}')
    if fmt != op['path'].rsplit('.', 1)[1] or engine != op['engine']:
        raise Violation('wrong_export', f'{what}: format {fmt}, engine {engine}')


def execute(sc, ctx):
    root = runner.scratch()
    dots = {}
    for i, op in enumerate(sc['threads'][0]):
        if op['what'] == 'mined':
            with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter('ignore')
                try:
                    dots[i] = mined(op)
                except Exception:
                    pass
    w = seams.World(ctx, root=root, disk_plan=sc['disk'], names_reuse=sc['reuse'])
    with w:
        os.chdir(root)
        w.renderer = r = render.Renderer(ctx, w, sc['render'], delay=sc['delay'])
        temps = set()
        held = {}     # absolute path -> op whose export it must hold

        def thread(tid, ops):
            for i, op in enumerate(ops):
                if op['what'] == 'mined':
                    if i not in dots:
                        ctx.probe('not_minable')     # pm4py cannot mine this log
                        continue
                    op = {**op, 'dot': dots[i]}
                obj, fn, kw = build(op)
                path = None
                if 'path' in op:
                    path = op['path'] if op['bare'] else os.path.join(root, op['path'])
                ap = None if path is None else os.path.abspath(path)
                old = None if ap is None else w.disk.peek(ap)
                shown0 = len([1 for t, _ in w.displayed if t == tid])
                nr, nd = len([1 for t in r.failed_in if t == tid]), len(w.disk.fired)
                if op['what'] == 'mined':
                    out = call(fn, obj, path)
                    temps.update(f for f in w.disk.listing() if '.gv' in f)    # pm4py keeps its own
                else:
                    out = call(fn, obj, name=op['name'], background_color=op['bg'], engine=op['engine'], export_path=path,
                               rankdir=op['rankdir'], **kw)
                failed_render = len([1 for t in r.failed_in if t == tid]) > nr
                failed_disk = len(w.disk.fired) > nd
                ctx.ev('export', tid, i, 'ok' if out.ok else type(out.exc).__name__)
                disp = [o for t, o in w.displayed if t == tid][shown0:]
                if path is None:
                    if not out.ok and op['what'] == 'mined' and failed_disk:
                        continue                                # pm4py makes a temporary file to find its name
                    if not out.ok:
                        raise Violation('failed', f'displaying {out.brief()} ({where(out.exc)})')
                    if len(disp) != 1:
                        raise Violation('display', f'{len(disp)} objects displayed instead of one')
                    with oracle('display'):
                        d = compare(op, render.parse(disp[0].source))
                    if d:
                        raise Violation('display', d)
                    ctx.probe('displayed')
                    continue
                if disp:
                    raise Violation('display', 'an exported graph was displayed too')
                data = w.disk.peek(ap)
                if out.ok:
                    if not drawable(op):
                        raise Violation('wrong_export', f'export to {op["path"]}, which names no known format, reported success')
                    if data is None:
                        raise Violation('lost_export', f'export to {op["path"]} reported success but there is no file')
                    check_file(op, data, f'export {op["path"]}')
                    held[ap] = op
                    ctx.probe('exported')
                else:
                    if not failed_render and not failed_disk and drawable(op):
                        raise Violation('failed', f'export to {op["path"]} {out.brief()} without a fault ({where(out.exc)})')
                    ctx.probe('export_failed')
                    if op['what'] != 'mined' or failed_render and not w.disk.fired:
                        if data != old:
                            what = 'renderer' if failed_render else 'storage' if failed_disk else 'export'
                            raise Violation('lost_old', f'the {what} failed, the error was reported, but {op["path"]} '
                                                        f'changed from {brief(old)} to {brief(data)}')
                    else:
                        held.pop(ap, None)

        if len(sc['threads']) == 1:
            thread('main', sc['threads'][0])
        else:
            w.sched = s = sched.Sched(ctx, sc['switches'])
            for i, ops in enumerate(sc['threads']):
                s.spawn(f'T{i}', lambda i=i, ops=ops: thread(f'T{i}', ops))
            try:
                s.run()
            finally:
                w.sched = None
            for t in s.tasks:
                if t.exc is not None:
                    raise t.exc
        for ap, op in held.items():
            data = w.disk.peek(ap)
            if data is None:
                raise Violation('lost_export', f'{op["path"]} was exported and has vanished')
            check_file(op, data, f'{op["path"]} at the end')
        if not w.disk.fired or not any(op['what'] == 'mined' for ops in sc['threads'] for op in ops):
            known = {os.path.realpath(p) for p in held}
            extra = [f for f in w.disk.listing() if os.path.join(w.disk.root, f) not in known and f not in temps]
            if extra:
                raise Violation('residue', f'files left behind: {extra}')
        if w.disk.open_files:
            raise Violation('leak', f'files left open: {sorted(w.disk.open_files)}')


def drawable(op):
    return op['path'].rsplit('.', 1)[-1] in ('png', 'svg', 'pdf')


def brief(b):
    return 'nothing' if b is None else f'{len(b)} bytes'
