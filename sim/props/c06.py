"""C06: what the built-in parts print, draw, display or export is exactly the result that triggered them."""
import os
import re

from .. import client, clientrun, render, runner
from ..core import Violation, oracle
from ..net import pb

ID = 'C06'
RUNS = {'quick': 8000, 'thorough': 100000}
BUDGET = {'quick': 200, 'thorough': 3000}
RULE = ('one evaluation = one simulated session of built-in printing, drawing, viewing and clustering parts; distinct = '
        'different event histories; non-trivial = at least one result rendered or a fault injected')
REAL = ['ficus.grpc_pipelines.* including every built-in callback', 'ficus.legacy.analysis.event_log_analysis(_canvas)',
        'ficus.legacy.discovery.*', 'matplotlib figure building', 'graphviz DOT building', 'ipycanvas object', 'sklearn PCA']
STUB = ['gRPC channel and backend service', 'rasteriser (Figure.savefig/show record the artists)',
        'Graphviz executable (DOT parser that writes the source it was given)', 'notebook front end', 'clock', 'uuid source', 'Isomap, MDS and t-SNE numerics']
ASSUMPTIONS = ['figures are judged by their artists, graphs by their DOT meaning', 'the numerics of embedding methods other than PCA are '
               'replaced by projections']
COUNT_ALL = True
SHRINK_KEEP = ('t', 'kind', 'op', 'code', 'n_components', 'visualization_method')

MPL = ['TracesDiversityDiagram2', 'DrawPlacementsOfEventByName2', 'DrawPlacementOfEventsByRegex2',
       'DrawFullActivitiesDiagram2', 'DrawShortActivitiesDiagram2']
CANVAS = [m + 'Canvas' for m in MPL]
GRAPH = ['ViewPetriNet2', 'ViewGraph2', 'ViewDirectlyFollowsGraph2', 'AnnotatePetriNetWithCount2',
         'AnnotatePetriNetWithFrequency2', 'AnnotatePetriNetWithTraceFrequency2']
SCATTER = ['ClusterizeActivitiesFromTracesKMeans', 'ClusterizeActivitiesFromTracesKMeansGridSearch',
           'ClusterizeActivitiesFromTracesDbscan', 'VisualizeTracesActivities2', 'ClusterizeLogTracesDbscan']
PRINT = ['PrintEventLogInfo2', 'PrintEventLog2', 'PrintNumberOfUnderlyingEvents2']


def cosmetics(rng, name, spec):
    c = spec['c'] = {}
    path = lambda ext: rng.pick(['out', 'out/deep', '']) + f'/f{rng.int(0, 99)}.{ext}'
    if name in MPL or name in CANVAS:
        if rng.chance(0.5):
            c['title'] = rng.pick(['T', 'Заголовок', '', '_t', r'$\q$'])
        if rng.chance(0.5):
            c['save_path'] = path('png') if name in MPL else f'f{rng.int(0, 99)}.png'
        if rng.chance(0.6):
            c['plot_legend'] = rng.chance(0.6)
        if rng.chance(0.4):
            c['height_scale'] = rng.int(1, 4) if name in MPL else rng.pick([1, 2, 3, 4, 0.5, 1.5, 2.25, 0.75])
        if rng.chance(0.4):
            c['width_scale'] = rng.int(1, 4) if name in MPL else rng.pick([1, 2, 3, 4, 0.5, 1.5, 2.25, 0.75])
    elif name in GRAPH:
        if rng.chance(0.6):
            c['export_path'] = path(rng.pick(['png', 'svg', 'pdf']))
        if rng.chance(0.3):
            c['name'] = rng.pick(['net', 'my graph', 'граф'])
        if rng.chance(0.3):
            c['background_color'] = rng.pick(['red', 'transparent', '#aabbcc'])
        if rng.chance(0.3):
            c['rankdir'] = rng.pick(['TB', 'RL'])
        if rng.chance(0.3):
            c['engine'] = rng.pick(['neato', 'circo'])
        if 'Petri' in name and rng.chance(0.5):
            c['show_places_names'] = rng.chance(0.7)
        if name == 'ViewPetriNet2' and rng.chance(0.4):
            c['annotation'] = [[100 + i, rng.pick(['1', '0.5', 'a"b'])] for i in range(rng.int(0, 4))]
    elif name in SCATTER:
        if name != 'VisualizeTracesActivities2' and rng.chance(0.3):
            c['show_visualization'] = rng.chance(0.5)
        c['n_components'] = rng.pick(['One', 'Two', 'Three'])
        if rng.chance(0.6):
            c['visualization_method'] = rng.pick(['Pca', 'Isomap', 'MDS', 'TSNE'])
        if rng.chance(0.3):
            c['view_params'] = [rng.int(0, 90), rng.int(-90, 90)]
        if rng.chance(0.3):
            c['font_size'] = rng.int(6, 20)
        if rng.chance(0.5):
            c['save_path'] = f'f{rng.int(0, 99)}.png'
        if rng.chance(0.3):
            c['legend_cols'] = rng.int(1, 3)


def pick(rng):
    kind = rng.weighted([('p', 4), ('m', 3), ('c', 3), ('g', 5), ('s', 1.5), ('n', 2), ('probe', 1)])
    if kind == 'probe':
        return client.gen_probe(rng)
    if kind == 'n':
        name = rng.pick(client.NESTING)
        s = client.gen_part(rng, only=name, depth=3, cosmetics=cosmetics)
        for arg, typ, _, _ in client.PARTS[name][4]:
            if arg in s['a'] and typ in ('P', 'P?', 'PBA'):
                s['a'][arg] = [pick(rng) for _ in range(rng.int(1, 2))]
        return s
    name = rng.pick({'p': PRINT, 'm': MPL, 'c': CANVAS, 'g': GRAPH, 's': SCATTER}[kind])
    return client.gen_part(rng, only=name, depth=3, cosmetics=cosmetics)


def generate(rng, tier):
    parts = [pick(rng) for _ in range(rng.weighted([(1, 3), (2, 3), (3, 2), (4, 1)]))]
    if len(parts) > 1 and rng.chance(0.2):
        parts.append({'t': 'Ref', 'of': rng.int(0, len(parts) - 1)})
    runs = rng.weighted([(1, 3), (2, 2)])
    plans = [clientrun.gen_plan(rng, i, faulty=0.2) for i in range(runs)]
    return {'parts': parts, 'ctx': [], 'plans': plans, 'runs': runs, 'uuid_seed': rng.seed()}


def cleanup():
    import matplotlib.pyplot as plt
    plt.close('all')


def specs_by_label(parts, prefix=''):
    out = {}
    for i, s in enumerate(parts):
        out[f'{prefix}{i}'] = s
        if s['t'] not in ('Probe', 'Ref'):
            for arg, typ, _, _ in client.PARTS[s['t']][4]:
                if typ in ('P', 'P?', 'PBA') and arg in s['a']:
                    out.update(specs_by_label(s['a'][arg], f'{prefix}{i}.'))
    return out


def rooted(parts, root):
    """Save and export paths go under the run's scratch directory."""
    out = []
    for s in parts:
        s = dict(s)
        if s.get('c'):
            s['c'] = {k: os.path.join(root, v.lstrip('/')) if k in ('save_path', 'export_path') else v
                      for k, v in s['c'].items()}
        if s['t'] not in ('Probe', 'Ref'):
            s['a'] = {k: rooted(v, root) if isinstance(v, list) and v and isinstance(v[0], dict) else v
                      for k, v in s['a'].items()}
        out.append(s)
    return out


class Checker:
    def __init__(self, s, specs, ctx):
        self.s = s
        self.w = s.world
        self.specs = specs
        self.ctx = ctx
        self.pending = None
        self.mark()

    def mark(self):
        w = self.w
        self.at = (len(w.figures), len(w.displayed), len(w.canvas_order))

    def start(self, label, vals):
        self.flush()
        self.pending = (label, vals)

    def flush(self):
        """Compare the effects since the last callback started with what that callback had to show."""
        w = self.w
        figs, disp, canv = (w.figures[self.at[0]:], w.displayed[self.at[1]:], w.canvas_order[self.at[2]:])
        p, self.pending = self.pending, None
        self.mark()
        name = None if p is None else self.specs[p[0]]['t']
        want = {'fig': 0, 'disp': 0, 'canvas': 0}
        if p is not None and name != 'Probe':
            with oracle('rendering'):
                self.one(name, self.specs[p[0]].get('c') or {}, p[1], figs, disp, canv, want)
        for kind, got in (('fig', figs), ('disp', disp), ('canvas', canv)):
            if len(got) != want[kind]:
                raise Violation('rendering', f'{name}: {len(got)} x {kind} produced instead of {want[kind]}')

    def one(self, name, c, vals, figs, disp, canv, want):
        bs, pc, pm, ut = pb()
        v = {k: pc.GrpcContextValue.FromString(b) for k, b in vals.items()}
        if name in MPL:
            want['fig'] = 1
            if figs:
                check_colors(name, c, v['colors_event_log'].colors_log, figs[0])
            self.saved(c.get('save_path'), figs)
        elif name in CANVAS:
            want['canvas'] = 1
            save = c.get('save_path')
            want['disp'] = 0 if save else 1
            if canv:
                canvas, ops = self.w.canvases[canv[0]]
                check_canvas(name, c, v['colors_event_log'].colors_log, canvas, list(ops))
                if save:
                    n = len(ops)
                    canvas.set_trait('image_data', b'front end %d' % len(self.w.canvas_order))
                    files = [o for o in ops[n:] if o[0] == 'to_file']
                    if [o[2][0] for o in files] != [save]:
                        raise Violation('rendering', f'{name}: picture saved to {[o[2] for o in files]} instead of {save}')
                elif disp and disp[0][1] is not canvas:
                    raise Violation('rendering', f'{name}: another canvas is displayed')
        elif name in GRAPH:
            self.graph(name, c, v, disp, want)
        elif name in SCATTER:
            if c.get('show_visualization', True):
                want['fig'] = 1
                if figs:
                    check_scatter(name, c, v, figs[0])
                self.saved(c.get('save_path'), figs)
        self.ctx.probe('rendered_' + ('mpl' if name in MPL else 'canvas' if name in CANVAS else 'graph' if name in GRAPH
                                      else 'scatter' if name in SCATTER else 'text'))

    def saved(self, path, figs):
        if figs and figs[0][1] != path:
            raise Violation('rendering', f'figure went to {figs[0][1]} instead of {path}')
        if path and self.w.disk.peek(path) is None:
            raise Violation('rendering', f'no file {path}')

    def graph(self, name, c, v, disp, want):
        if 'Petri' in name:
            ann = None
            if name == 'ViewPetriNet2':
                ann = {int(a): b for a, b in c['annotation']} if c.get('annotation') is not None else None
            elif name.endswith('Count2'):
                ann = {a.entityId: str(a.count) for a in v['petri_net_count_annotation'].count_annotation.annotations}
            else:
                key = 'petri_net_trace_frequency_annotation' if 'Trace' in name else 'petri_net_frequency_annotation'
                ann = {a.entityId: str(a.frequency) for a in v[key].frequency_annotation.annotations}
            nodes, edges = render.expect_net(v['petri_net'].petriNet, c.get('show_places_names', False), ann)
        else:
            nodes, edges = render.expect_graph(v['graph'].graph)
        path = c.get('export_path')
        if path:
            data = self.w.disk.peek(path)
            if data is None:
                raise Violation('rendering', f'{name}: nothing exported to {path}')
            try:
                fmt, engine, g = render.read_rendered(data)
            except render.DotError as e:
                raise Violation('rendering', f'{name}: export {path} is broken: {e}')
            if fmt != path.rsplit('.', 1)[-1]:
                raise Violation('rendering', f'{name}: {path} holds format {fmt}')
            if engine != c.get('engine', 'dot'):
                raise Violation('rendering', f'{name}: laid out by {engine}')
        else:
            want['disp'] = 1
            if not disp:
                return
            g = render.parse(disp[0][1].source)
        sh = render.shown(g)
        d = client.diff(sh['nodes'], nodes, 'nodes') or client.diff(sh['edges'], edges, 'edges')
        if d:
            raise Violation('rendering', f'{name}: {d}')
        if sh['bgcolor'] != c.get('background_color', 'white') or sh['rankdir'] != c.get('rankdir', 'LR'):
            raise Violation('rendering', f'{name}: style {sh["bgcolor"]}/{sh["rankdir"]} instead of the requested one')


def hexc(c):
    return '#%02X%02X%02X' % (c.red, c.green, c.blue)


def check_colors(name, c, log, fig):
    hs, ws = c.get('height_scale', 1), c.get('width_scale', 1)
    want, legend = [], {}
    for i, t in enumerate(log.traces):
        x = 0
        for r in t.event_colors:
            want.append([float(x), float(i * hs), float(r.length * ws), float(hs), hexc(r.color)])
            x += r.length * ws
            legend[r.name] = hexc(r.color)
    want.sort(key=lambda r: (r[1], r[0], r[4]))
    ax = fig[2][0]
    d = client.diff(ax['rects'], want, 'rectangles')
    if d:
        raise Violation('rendering', f'{name}: {d}')
    if c.get('plot_legend', True):
        got = dict((n, col) for n, col in (ax['legend'] or []))
        for n, col in legend.items():
            if len(n) <= 50:
                if got.get(n) != col:
                    raise Violation('rendering', f'{name}: legend shows {n!r} as {got.get(n)} instead of {col}')
            elif n[:50] not in got:
                raise Violation('rendering', f'{name}: legend lacks {n[:50]!r}')
        extra = set(got) - set(legend) - {n[:50] for n in legend}
        if extra:
            raise Violation('rendering', f'{name}: legend shows {sorted(extra)} that the log lacks')
    elif ax['legend'] is not None:
        raise Violation('rendering', f'{name}: legend drawn although switched off')
    if (ax['xlabel'] or '') != (c.get('title') or ''):
        raise Violation('rendering', f'{name}: title {ax["xlabel"]!r} instead of {c.get("title")!r}')


def check_canvas(name, c, log, canvas, ops):
    hs, ws = c.get('height_scale', 1), c.get('width_scale', 1)
    rects = [(o[2][0], o[2][1], o[2][2], o[2][3], o[1]) for o in ops if o[0] == 'fill_rect'
             and not (o[2][2] == canvas.width and o[2][3] == canvas.height)]
    rects.sort(key=lambda r: (r[1], r[0]))
    want, legend = [], {}
    for i, t in enumerate(log.traces):
        x = 0
        for r in t.event_colors:
            want.append((x, i * hs, r.length * ws, hs, hexc(r.color)))
            x += r.length * ws
            legend[r.name] = hexc(r.color)
    want.sort(key=lambda r: (r[1], r[0]))
    n = len(want)
    if len(rects) != n + (len(legend) if c.get('plot_legend', False) else 0):
        raise Violation('rendering', f'{name}: {len(rects)} rectangles drawn for {n} events and {len(legend)} names')
    if n:
        x0, y0 = rects[0][0] - want[0][0], rects[0][1] - want[0][1]
        got = [(round(r[0] - x0, 6), round(r[1] - y0, 6), r[2], r[3], r[4]) for r in rects[:n]]
        d = client.diff(got, want, 'rectangles')
        if d:
            raise Violation('rendering', f'{name}: {d}')
    eps = 1.0    # the canvas size is whole pixels
    for i, r in enumerate(rects):
        if r[1] < -eps or r[1] + r[3] > canvas.height + eps or i < n and (r[0] < -eps or r[0] + r[2] > canvas.width + eps):
            raise Violation('rendering', f'{name}: {r} lies outside the canvas of {canvas.width} x {canvas.height}')
    if len(rects) > n > 0 and rects[n][1] < max(r[1] + r[3] for r in rects[:n]) - eps:
        raise Violation('rendering', f'{name}: the legend covers events')
    texts = [o[2][0] for o in ops if o[0] == 'fill_text']
    for what, num in (('traces', len(log.traces)), ('events', max([sum(r.length for r in t.event_colors) for t in log.traces], default=0))):
        if str(num) not in texts:
            raise Violation('rendering', f'{name}: the axis does not show the number of {what} {num}: {texts}')
    if c.get('title') is not None and c['title'] not in texts:
        raise Violation('rendering', f'{name}: title {c["title"]!r} is not drawn: {texts}')
    if c.get('plot_legend', False):
        # every name stands at the right of a rectangle of its colour
        texts = [o[2] for o in ops if o[0] == 'fill_text']
        for nm, col in legend.items():
            at = [t for t in texts if t[0] == nm]
            if not any(r[4] == col and r[1] <= t[2] <= r[1] + r[3] and r[0] + r[2] <= t[1] <= r[0] + r[2] + 50 for t in at for r in rects[n:]):
                raise Violation('rendering', f'{name}: the legend does not show {nm!r} beside its colour {col}: {at} {rects[n:]}')


METHODS = {'Isomap': 1, 'MDS': 2, 'TSNE': 3}


def embedding(method, m, k):
    import numpy as np
    m = np.asarray(m, dtype=float)
    w = np.array([[(i + 1.0) ** (j + 1) for j in range(k)] for i in range(m.shape[1])]).reshape(m.shape[1], k)
    return m @ w + 1000.0 * METHODS[method]


def prepare():
    """Isomap, MDS and t-SNE are third-party numerics: each is replaced by a projection of its own."""
    from sklearn import manifold

    def stub(cls, method):
        def fit(self, X, y=None, **_):
            self.embedding_ = embedding(method, X, self.n_components)
            return self

        def fit_transform(self, X, y=None, **_):
            return fit(self, X).embedding_
        cls.fit, cls.fit_transform = fit, fit_transform
    for method in METHODS:
        stub(getattr(manifold, method), method)


def check_scatter(name, c, v, fig):
    import numpy as np
    from sklearn.decomposition import PCA
    k = {'One': 1, 'Two': 2, 'Three': 3}[c.get('n_components', 'Three')]
    labeled = name != 'VisualizeTracesActivities2'
    if labeled:
        lab = v['labeled_log_traces_dataset' if name == 'ClusterizeLogTracesDbscan' else
                'labeled_traces_activities_dataset'].labeled_dataset
        ds, labels = lab.dataset, list(lab.labels)
        colors = {l: hexc(col) for l, col in zip(lab.labels, lab.labelsColors)}
    else:
        ds = v['traces_activities_dataset'].dataset
        labels, colors = [None] * len(ds.rowNames), {}
    m = np.array([list(r.values) for r in ds.matrix.rows])
    method = c.get('visualization_method', 'Pca')
    emb = PCA(n_components=k).fit_transform(m) if method == 'Pca' else embedding(method, m, k)
    if k == 1:
        emb = np.hstack([emb, np.zeros((len(m), 1))])
    for i, lab in enumerate(('xlabel', 'ylabel', 'zlabel')[:max(k, 2)]):
        if fig[2][0][lab] != f'Component {i + 1}':
            raise Violation('rendering', f'{name}: axis {i + 1} of {k} components is called {fig[2][0][lab]!r}')
    view = c.get('view_params')
    if k == 3 and view is not None and [round(x, 3) for x in fig[2][0]['view']] != [float(x) for x in view]:
        raise Violation('rendering', f'{name}: seen from {fig[2][0]["view"]} instead of {view}')
    groups = fig[2][0]['points']
    want = {}
    for row, l in zip(emb, labels):
        want.setdefault(l, []).append(row)
    if len(groups) != len(want):
        raise Violation('rendering', f'{name}: {len(groups)} groups drawn instead of {len(want)}')
    for g in groups:
        key = None if not labeled else next((l for l in want if g[0] == f'CLUSTER_{l}'), 'none')
        if key not in want:
            raise Violation('rendering', f'{name}: group {g[0]!r} is not a cluster of the result')
        if labeled and g[1] != colors[key]:
            raise Violation('rendering', f'{name}: cluster {key} drawn in {g[1]} instead of {colors[key]}')
        a = sorted(tuple(round(abs(float(x)), 3) for x in p) for p in g[2])
        b = sorted(tuple(round(abs(float(x)), 3) for x in p) for p in want[key])
        if len(a) != len(b) or any(abs(x - y) > 0.01 + 1e-3 * abs(y) for p, q in zip(a, b) for x, y in zip(p, q)):
            raise Violation('rendering', f'{name}: cluster {key} drawn at {a} instead of {b}')


def check_text(x, text):
    """Everything printable of the delivered results, in order."""
    pos = 0
    bs, pc, pm, ut = pb()
    infos = []
    for m in x.delivered:
        if m[0] != 'part':
            continue
        v = {k: pc.GrpcContextValue.FromString(b) for k, b in m[2].items()}
        if 'event_log_info' in v:
            i = v['event_log_info'].event_log_info
            infos.append((i.events_count, i.event_classes_count, i.traces_count))
        elif 'names_event_log' in v:
            for t in v['names_event_log'].names_log.log.traces:
                line = str(list(t.events))
                k = text.find(line + '\n', pos)
                if k < 0:
                    raise Violation('printed', f'trace {line} is not printed (in order)')
                pos = k + len(line)
        elif 'underlying_events_count' in v:
            line = str(v['underlying_events_count'].uint32)
            k = re.compile(r'(?<!\d)' + line + r'(?!\d)').search(text, pos)
            if not k:
                raise Violation('printed', f'number of underlying events {line} is not printed (in order)')
            pos = k.end()
    got = []
    for block in re.findall(r'EventLogInfo\(([^)]*)\)', text):
        f = dict(p.strip().split('=') for p in block.split(','))
        got.append((int(f['events_count']), int(f['event_classes_count']), int(f['traces_count'])))
    if got != infos:
        raise Violation('printed', f'log infos printed {got} instead of {infos} (events, classes, traces)')


def execute(sc, ctx):
    root = runner.scratch()
    sc = dict(sc, parts=rooted(sc['parts'], root))
    s = clientrun.Session(ctx, sc, root=root, mute=False)
    s.world.renderer = render.Renderer(ctx, s.world)
    specs = specs_by_label(sc['parts'])
    try:
        ch = Checker(s, specs, ctx)
        orig = s.rec.callback

        def callback(label, values):
            ch.start(label, {k: v.SerializeToString() for k, v in values.items()})
            orig(label, values)
        s.rec.callback = callback
        for r in range(sc['runs']):
            h0 = len(s.world.hist)
            n0 = len(s.net.executions)
            out = s.execute(context={})
            ch.flush()
            x = s.net.executions[n0]
            if out.exc is not None and not isinstance(out.exc, (clientrun.net.SimRpcError, KeyboardInterrupt)) and \
                    not ((x.plan.get('fault') or {}).get('kind') == 'eof'):
                raise Violation('callback_failed', f'{out.brief()} although only the network failed '
                                                   f'({clientrun.where(out.exc)})')
            clientrun.check_deliveries(ctx, x, s.labels, s.world.hist[h0:])
            with oracle('printed'):
                check_text(x, ''.join(h[2] for h in s.world.hist[h0:] if h[0] == 'out'))
        left = [f for f in s.world.disk.listing() if f.startswith('tmp/') or f.endswith('.gv')]
        if left:
            raise Violation('residue', f'temporary files left behind: {left}')
    finally:
        s.close()
