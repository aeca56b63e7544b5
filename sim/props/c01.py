"""C01: every part result reaches its part's callback exactly once, in order, with its exact values."""
from .. import client, clientrun
from ..core import Violation

ID = 'C01'
RUNS = {'quick': 40000, 'thorough': 1500000}
RULE = ('one evaluation = one simulated session (1-3 executions of one pipeline over the simulated transport); '
        'distinct = different event histories; non-trivial = at least one fault or part result delivered')
REAL = ['ficus.grpc_pipelines.* (pipeline building, request encoding, stream loop, callback routing)', 'protobuf runtime']
STUB = ['gRPC channel and backend service (reference model of the Rust backend)', 'clock', 'uuid source',
        'the rendering body of built-in parts is replaced by a recorder (C06 runs it for real)']
ASSUMPTIONS = ['messages of one stream arrive in order (HTTP/2 guarantees it); a stream may break off anywhere',
               'the backend sends one part result per context request it executes, repeated for nested pipelines']
COUNT_ALL = True
SHRINK_KEEP = ('t', 'kind', 'op')


def generate(rng, tier):
    n = rng.weighted([(1, 2), (2, 3), (3, 3), (5, 2), (8, 1)])
    parts = client.gen_parts(rng, n)
    runs = rng.weighted([(1, 30), (2, 20), (3, 10), (rng.int(8, 20), 1)])
    plans = [clientrun.gen_plan(rng, i, faulty=0.35) for i in range(runs)]
    for p in plans:
        if rng.chance(0.08):
            p['bare'] = rng.int(0, 4)
        if rng.chance(0.12):
            p['edit_at'] = [rng.int(0, 4), [clientrun.gen_edit(rng)]]
    if rng.chance(0.04):
        plans[rng.int(0, runs - 1)]['big'] = [rng.int(0, 3), rng.pick([4 * 2 ** 20 - 40, 4 * 2 ** 20 + 1, 5 * 2 ** 20])]
    return {'parts': parts, 'ctx': [], 'plans': plans, 'runs': runs, 'uuid_seed': rng.seed(),
            'edits': clientrun.gen_edits(rng, runs) if rng.chance(0.4) else None,
            'cb_fail': rng.int(1, 6) if rng.chance(0.12) else None}


def execute(sc, ctx):
    s = clientrun.Session(ctx, sc, mute=True)
    try:
        for r in range(sc['runs']):
            if sc.get('edits') and r < len(sc['edits']):
                s.edit(sc['edits'][r])
            h0 = len(s.world.hist)
            s.rec.n = 0
            s.rec.fail_exc = None
            s.rec.fail_at = sc.get('cb_fail')
            n0 = len(s.net.executions)
            labels = s.labels
            out = s.execute(context=s.context())
            xs = s.net.executions[n0:]
            if len(xs) != 1:
                raise Violation('executions', f'one execute call made {len(xs)} executions ({out.brief()})')
            failed_at = sc['cb_fail'] if s.rec.fail_exc is not None else None
            n = clientrun.check_deliveries(ctx, xs[0], labels, s.world.hist[h0:], failed_at)
            ctx.probe('callbacks', n)
    finally:
        s.close()
