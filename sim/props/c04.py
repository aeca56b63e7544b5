"""C04: what the user composed is what the backend is asked, at the address given, run after run."""
from .. import client, clientrun, legacy
from ..core import Violation, oracle

ID = 'C04'
RUNS = {'quick': 40000, 'thorough': 1500000}
RULE = ('one evaluation = one simulated session: one pipeline and one context object executed 1-5 times under stream '
        'faults, each request compared with an independent model; distinct = different event histories')
REAL = ['ficus.grpc_pipelines.* (all part classes, context values, request building, address choice)',
        'protobuf runtime']
STUB = ['gRPC channel and backend service (reference model)', 'clock', 'uuid source']
ASSUMPTIONS = ['the backend reads configuration parameters by key, so their order in the request does not matter',
               'part names, keys and enum names are those of the Rust backend sources at the pinned commit']
COUNT_ALL = True
SHRINK_KEEP = ('t', 'kind', 'op', 'code')


def generate(rng, tier):
    n = rng.weighted([(0, 10), (1, 30), (2, 30), (4, 30), (7, 10), (rng.int(15, 40), 1)])
    parts = client.gen_parts(rng, n, probe_p=0.08)
    runs = rng.weighted([(1, 10), (2, 30), (3, 20), (5, 10), (rng.int(8, 16), 1)])
    plans = [clientrun.gen_plan(rng, i, faulty=0.5) for i in range(runs)]
    for p in plans:
        if rng.chance(0.1):
            p['edit_at'] = [rng.int(0, 4), [clientrun.gen_edit(rng)]]
    same = rng.chance(0.6)
    addr = [rng.pick([None] + clientrun.ADDRS) for _ in range(runs)]
    if same:
        addr = [addr[0]] * runs
    context = client.gen_context(rng)
    return {'parts': parts, 'ctx': context, 'ctx_edits': [client.gen_context_edit(rng, context) if rng.chance(0.4) else None for _ in range(runs)],
            'plans': plans, 'runs': runs, 'uuid_seed': rng.seed(),
            'foreign': [rng.int(0, runs - 1), rng.int(0, 6), rng.pick(['text', 'local part', 'number'])] if rng.chance(0.1) else None,
            'addr': addr, 'reuse_context': same, 'edits': clientrun.gen_edits(rng, runs) if rng.chance(0.4) else None,
            'cb_fail': rng.int(1, 4) if rng.chance(0.1) else None}


def execute(sc, ctx):
    s = clientrun.Session(ctx, sc, mute=True)
    try:
        want = client.expect(sc['parts'])
        with oracle('request'):
            d = client.diff(client.decode(s.pipeline.to_grpc_pipeline()), want)
        if d:
            raise Violation('request', f'encoded pipeline differs: {d}')
        context = None
        for r in range(sc['runs']):
            if sc.get('edits') and r < len(sc['edits']):
                s.edit(sc['edits'][r])
            want, labels = s.want(), s.labels
            s.rec.n = 0
            s.rec.fail_at = sc.get('cb_fail')
            addr = sc['addr'][r]
            if context is None or not sc['reuse_context']:
                context = s.context(addr)
                held = sc['ctx']
            op = sc.get('ctx_edits') and r < len(sc['ctx_edits']) and sc['ctx_edits'][r]
            if op:
                held = client.edit_context(context, held, op)
                ctx.probe('contexts edited in place')
            want_ctx = client.expect_context(held)
            if sc.get('foreign') and sc['foreign'][0] == r:
                refused(s, ctx, context, sc['foreign'])
            before = dict(context)
            n0 = len(s.net.executions)
            out = s.execute(context=context)
            xs = s.net.executions[n0:]
            if len(xs) != 1:
                raise Violation('executions', f'run {r + 1}: one execute call made {len(xs)} executions ({out.brief()})')
            x = xs[0]
            if x.addr != (addr or 'localhost:8080'):
                raise Violation('address', f'run {r + 1}: the context names {addr!r} but the request went to {x.addr!r}')
            d = client.diff(client.decode(x.request.pipeline), want)
            if d:
                raise Violation('request', f'run {r + 1}: requested pipeline differs: {d}')
            d = client.diff(client.decode_context(x.request), want_ctx)
            if d:
                raise Violation('context', f'run {r + 1}: initial context differs: {d}')
            if list(context) != list(before) or any(context[k] is not before[k] for k in before):
                raise Violation('caller_context', f'run {r + 1}: execute changed the caller\'s context: '
                                                  f'{sorted(before)} became {sorted(context)}')
            uuids = {}
            walk(x.request.pipeline, (), labels, uuids)
            ctx.probe('requests')
    finally:
        s.close()


def refused(s, ctx, context, op):
    """what is no part of a client pipeline can not be asked: an error, and nothing is sent"""
    parts = s.pipeline.parts
    thing = {'text': lambda: 'FilterTracesByVariants', 'number': lambda: 7,
             'local part': lambda: legacy.build({'s': 'ByVariants'})}[op[2]]()
    at = op[1] % (len(parts) + 1)
    parts.insert(at, thing)
    n0 = len(s.net.executions)
    out = s.execute(context=context)
    del parts[at]
    if out.ok or len(s.net.executions) != n0:
        raise Violation('foreign', f'a {op[2]} between the parts: {out.brief()}, {len(s.net.executions) - n0} requests sent')
    ctx.probe('foreign parts refused')


def walk(pipeline, path, labels, uuids):
    """Different parts carry different identities."""
    for i, b in enumerate(pipeline.parts):
        w = b.WhichOneof('part')
        here = path + (i,)
        cfg = None
        if w in ('simpleContextRequestPart', 'complexContextRequestPart'):
            p = getattr(b, w)
            u = p.frontendPartUuid.uuid
            label = labels.get(here) or str(here)
            if uuids.setdefault(u, label) != label:
                raise Violation('identity', f'parts {uuids[u]} and {label} share the identity {u}')
            if w == 'complexContextRequestPart':
                cfg = p.beforePipelinePart.configuration
        elif w == 'defaultPart':
            cfg = b.defaultPart.configuration
        for kv in (cfg.configurationParameters if cfg is not None else ()):
            if kv.value.WhichOneof('contextValue') == 'pipeline':
                walk(kv.value.pipeline, here + ('n',), labels, uuids)
