"""One simulated client session: pipelines executed one after another against the modelled backend."""
from . import client, net, seams
from .core import Violation, call, canon, derive, where

CODES = ['UNAVAILABLE', 'DEADLINE_EXCEEDED', 'INTERNAL', 'RESOURCE_EXHAUSTED', 'CANCELLED', 'UNKNOWN', 'UNAUTHENTICATED']
ADDRS = ['localhost:8080', 'backend-1:9090', '10.0.0.7:50051']


def gen_log(rng, n, tag):
    out = []
    for i in range(rng.weighted([(0, 30), (1, 30), (2, 20), (4, 10), (40, 1)])):
        text = f'log-{tag}-{i}' + rng.pick(['', ' Started executing', ' 100%', ' ü', ' two\nlines', '   indented', ' {x}', ' ', ' end\n',
                                            '\tx\t', ' \x1b[0m', ' a\r'])
        if rng.chance(0.02):
            text *= rng.pick([20, 200, 2000])
        if rng.chance(0.12):
            text = rng.pick(['', ' ', '\n', '\r'])
        if out and rng.chance(0.2):
            text = rng.pick(out)[1]
        out.append([rng.int(0, n), text])
    return out


def gen_plan(rng, tag, faulty=0.5, kinds=('abort', 'eof', 'interrupt', 'abort_after_final')):
    plan = {'reps': [rng.weighted([(1, 3), (0, 1), (2, 3), (3, 1)]) for _ in range(4)],
            'seed': rng.seed(), 'log': gen_log(rng, 6, tag),
            'delay': [rng.pick([0.0005, 0.01, 0.5, 30.0]) for _ in range(rng.int(1, 3))]}
    if rng.chance(0.06):
        plan['delay'] = [rng.pick([5.0, 900.0, 50000.0, 1e6])]
    if rng.chance(0.06):
        plan['drop_delay'] = rng.pick([5.0, 120.0, 50000.0])
    if rng.chance(0.1):
        plan['same'] = True
    if rng.chance(0.03):
        plan['guid'] = rng.pick(['', '0', 'ü', 'same'])
    if rng.chance(0.1):
        plan['noise'] = [rng.int(0, 4)]
    if rng.chance(0.2):
        plan['error'] = rng.pick(['No such part', 'ошибка', 'Failed to find context value for key', 'x' * 300])
        if rng.chance(0.7):
            plan['error_at'] = rng.int(0, 6)
    if rng.chance(faulty):
        kind = rng.pick(list(kinds) + ['unreachable'])
        if kind == 'unreachable':
            plan['unreachable'] = True
        else:
            plan['fault'] = {'at': rng.weighted([(0, 2), (1, 2), (rng.int(0, 8), 5), (99, 1)]), 'kind': kind,
                             'code': rng.pick(CODES)}
    if rng.chance(0.15):
        plan['drop'] = rng.pick(['UNAVAILABLE', 'DEADLINE_EXCEEDED', 'NOT_FOUND', 'INTERNAL', 'interrupt'])
        plan['drop_applied'] = rng.chance(0.5)
    return plan


def gen_edits(rng, runs):
    """per execution, the edits made before it"""
    out = [[]]
    for _ in range(runs - 1):
        ops = []
        for _ in range(rng.weighted([(0, 3), (1, 3), (2, 1)])):
            ops.append(gen_edit(rng))
        out.append(ops)
    return out


def gen_edit(rng):
    """[what, which list (0 is the pipeline itself, else one nested in it), ...]"""
    k = rng.weighted([('add', 3), ('del', 1), ('move', 1)])
    at = rng.weighted([(0, 1), (rng.int(1, 6), 1)])
    if k == 'add':
        return ['add', at, rng.int(0, 5), client.gen_part(rng)]
    if k == 'del':
        return ['del', at, rng.int(0, 7)]
    return ['move', at, rng.int(0, 7), rng.int(0, 7)]


def valuer(x, ordinal, key):
    plan = x.plan
    big = plan.get('big')
    v = client.gen_values((plan.get('seed', 0), x.tid, x.nth, 0 if plan.get('same') else ordinal), key)
    if big and big[0] == ordinal and key not in ('petri_net', 'graph', 'colors_event_log'):
        if v.WhichOneof('contextValue') in ('string', 'uint32', 'bool', 'strings', 'float'):
            v.string = 'B' * int(big[1])
            x.channel.net.ctx.fault('message_over_4_MiB')
    return v


class Session:
    """World + net + one pipeline object built from the spec."""

    def __init__(self, ctx, sc, root=None, mute=True, disk_plan=None, thread_names=None, plans=None, addresses=None):
        self.ctx = ctx
        self.sc = sc
        self.world = seams.World(ctx, root=root, disk_plan=disk_plan, uuid_seed=sc.get('uuid_seed', 0),
                                 rand_seed=sc.get('uuid_seed', 0))
        self.world.__enter__()
        self.net = net.SimNet(ctx, self.world, plans if plans is not None else sc['plans'], valuer, addresses)
        self.world.net = self.net
        self.rec = client.Recorder(self.world)
        self.specs = client.live(sc['parts'])
        self.rec.lists[id(self.specs)] = 'labelled'
        self.pipeline = client.build(self.specs, self.rec, '', mute)
        self.labels = client.labels_of(self.specs)
        self.added = 0
        self.kept = []           # removed parts stay alive: they are known by their ids
        self.net.before = self.in_flight

    def close(self):
        self.world.__exit__()

    def in_flight(self, x, pos):
        """somebody edits the pipeline while it executes: the execution under way is of what was sent"""
        e = x.plan.get('edit_at')
        if e is not None and e[0] == pos and not x.edited:
            x.edited = True
            self.edit(e[1])
            self.ctx.fault('edited_while_executing')

    def edit(self, ops):
        """The user edits the part list of the pipeline, or of one nested in it."""
        for op in ops:
            every = client.lists_of(self.specs)
            specs = every[op[1] % len(every)]
            parts = self.rec.lists[id(specs)].parts
            n = len(specs)
            if op[0] == 'add':
                s = client.live([op[3]], f'e{self.added}x')[0]
                self.added += 1
                self.kept.append(s)
                i = min(op[2], n)
                parts.insert(i, client.build_part(s, self.rec, s['l'], True))
                specs.insert(i, s)
            elif n and op[0] == 'del':
                i = op[2] % n
                del parts[i]
                self.kept.append(specs.pop(i))
            elif n and op[0] == 'move':
                i, j = op[2] % n, op[3] % n
                parts.insert(j, parts.pop(i))
                specs.insert(j, specs.pop(i))
            self.ctx.probe('edit_' + op[0])
        self.labels = client.labels_of(self.specs)

    def want(self):
        return client.expect(self.specs)

    def context(self, addr=None):
        c = client.build_context(self.sc.get('ctx', []), self.rec)
        if addr is not None:
            c['backend'] = addr
        return c

    def execute(self, pipeline=None, context=None):
        out = call((pipeline or self.pipeline).execute, {} if context is None else context)
        self.ctx.ev('outcome', out.brief().split('\n')[0][:80] if out.exc is None or isinstance(
            out.exc, (net.SimRpcError, KeyboardInterrupt, client.CallbackError)) else 'raised ' + type(out.exc).__name__)
        return out


def check_deliveries(ctx, x, labels, hist, cb_failed_at=None):
    """The callbacks and log lines of one execution against what its stream delivered."""
    expected = []
    for m in x.delivered:
        if m[0] == 'part':
            if m[1] not in labels:
                raise Violation('request_shape', f'the request holds a context request at {m[1]} that no part of the '
                                                 f'pipeline asked for')
            if labels[m[1]] is not None:
                expected.append(('cb', labels[m[1]], m[2]))
        elif m[0] == 'log':
            expected.append(('log', m[1]))
    if cb_failed_at is not None:
        # nothing after the failing callback counts
        n = 0
        for i, e in enumerate(expected):
            if e[0] == 'cb':
                n += 1
                if n == cb_failed_at:
                    expected = expected[:i + 1]
                    break
    got = []
    text = ''
    for h in hist:
        if h[0] == 'out':
            text += h[2]
        else:
            got.append(('text', text))
            text = ''
            got.append(('cb', h[2], h[3]))
    got.append(('text', text))
    cbs = [g for g in got if g[0] == 'cb']
    want = [e for e in expected if e[0] == 'cb']
    for i in range(max(len(cbs), len(want))):
        if i >= len(cbs):
            raise Violation('callback_missing', f'result {i + 1} for part {want[i][1]} was delivered but its callback '
                                                f'never ran; callbacks: {[c[1] for c in cbs]}, results: '
                                                f'{[w[1] for w in want]}')
        if i >= len(want):
            raise Violation('callback_extra', f'callback of part {cbs[i][1]} ran without a result; callbacks: '
                                              f'{[c[1] for c in cbs]}, results: {[w[1] for w in want]}')
        if cbs[i][1] != want[i][1]:
            raise Violation('callback_order', f'result {i + 1} belongs to part {want[i][1]} but part {cbs[i][1]} was '
                                              f'called')
        if cbs[i][2] != want[i][2]:
            raise Violation('callback_values', f'part {want[i][1]} was given {show(cbs[i][2])} instead of '
                                               f'{show(want[i][2])}')
    # log lines: each once, in place between the callbacks
    segs = [[]]
    for e in expected:
        if e[0] == 'cb':
            segs.append([])
        else:
            segs[-1].append(e[1])
    texts = [g[1] for g in got if g[0] == 'text']
    whole = ''.join(texts)
    for seg, t in zip(segs, texts):
        pos = 0
        for line in seg:
            k = line_at(t, line, pos)
            if k < 0:
                where = 'elsewhere' if line_at(whole, line, 0) >= 0 else 'nowhere'
                raise Violation('log_message', f'backend message {line!r} is not printed in its place (found {where}); '
                                               f'printed there: {t!r}')
            pos = k + len(line) + 1
    sent = ''.join(line + '\n' for seg in segs for line in seg)
    for line in sorted({line for seg in segs for line in seg if line.startswith('log-')}):
        n, m = times(whole, line), times(sent, line)
        if n != m:
            raise Violation('log_message', f'backend message {line!r} printed {n} times instead of {m}')
    return len(want)


def line_at(text, line, pos):
    """where the line (which may hold line breaks) stands in the text, from its beginning to its end"""
    while True:
        k = text.find(line + '\n', pos)
        if k <= 0 or text[k - 1] == '\n':
            return k
        pos = k + 1


def times(text, line):
    n, pos = 0, 0
    while True:
        pos = line_at(text, line, pos)
        if pos < 0:
            return n
        n += 1
        pos += 1


def show(vals):
    return {k: v[:60] for k, v in vals.items()}


def check_outcome(ctx, x, out, cb_failed):
    """The result of execute against what the backend said."""
    ret = out.value if out.ok else None
    success = None
    try:
        if ret is not None and ret.finalResult.HasField('success'):
            success = ret.finalResult.success.guid
    except AttributeError:
        raise Violation('outcome', f'execute returned {type(ret).__name__}')
    kind = (x.plan.get('fault') or {}).get('kind')
    if cb_failed is not None:
        if out.exc is not cb_failed:
            raise Violation('outcome', f'a callback raised {cb_failed!r} but execute {out.brief()}')
        return 'callback_error'
    if x.final_seen:
        if x.final[0] == 'success':
            if x.plan.get('drop'):
                # releasing failed: either way to report it is truthful, success of another run is not
                if out.ok and success != x.final[1]:
                    raise Violation('outcome', f'backend confirmed {x.final[1]}, execute returned {ret}')
                return 'drop_failed'
            if not out.ok:
                raise Violation('outcome', f'backend confirmed success but execute {out.brief()}')
            if success != x.final[1]:
                raise Violation('outcome', f'backend confirmed {x.final[1]!r}, execute returned {str(ret)[:200]!r}')
            return 'success'
        if out.ok and success is not None:
            raise Violation('outcome', f'backend reported {x.final[1]!r} but execute returned success {success!r}')
        if out.ok:
            if ret.finalResult.error != x.final[1]:
                raise Violation('outcome', f'backend reported {x.final[1]!r}, execute returned {str(ret)[:200]!r}')
        else:
            raise Violation('outcome', f'backend reported {x.final[1]!r} as the final result but execute {out.brief()}')
        return 'error'
    # the backend never said how it ended
    if out.ok and success is not None:
        raise Violation('outcome', f'no final result arrived ({kind}) but execute returned success {success!r}')
    if out.ok and ret is not None and ret.HasField('finalResult'):
        raise Violation('outcome', f'no final result arrived ({kind}) but execute returned one: {str(ret)[:200]!r}')
    if kind == 'interrupt':
        if not isinstance(out.exc, KeyboardInterrupt):
            raise Violation('outcome', f'the user interrupted the call but execute {out.brief()}')
        return 'interrupted'
    if kind == 'abort' or x.plan.get('unreachable'):
        if not isinstance(out.exc, Exception):
            raise Violation('outcome', f'the call broke off ({kind}) but execute {out.brief()}')
        return 'aborted'
    if not isinstance(out.exc, Exception):
        raise Violation('outcome', f'the stream ended without a final result but execute {out.brief()}')
    return 'eof'
