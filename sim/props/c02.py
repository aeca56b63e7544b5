"""C02: execute reports truthfully how the backend's execution ended."""
from .. import client, clientrun
from ..core import Violation

ID = 'C02'
RUNS = {'quick': 40000, 'thorough': 1500000}
RULE = ('one evaluation = one simulated session (1-4 executions, each with its own fault); distinct = different event '
        'histories; non-trivial = a fault was injected')
REAL = ['ficus.grpc_pipelines.* (stream loop, final result, release, error propagation)', 'protobuf runtime']
STUB = ['gRPC channel and backend service (reference model)', 'clock', 'uuid source']
ASSUMPTIONS = ['a final result, once received, is authoritative even if the call then ends with a bad status',
               'a failed release call after a confirmed success may be reported either way']
SHRINK_KEEP = ('t', 'kind', 'op', 'code')


def generate(rng, tier):
    parts = client.gen_parts(rng, rng.int(0, 4), probe_p=0.6)
    runs = rng.int(1, 4) if rng.chance(0.985) else rng.int(8, 20)
    plans = [clientrun.gen_plan(rng, i, faulty=0.75) for i in range(runs)]
    return {'parts': parts, 'ctx': [], 'plans': plans, 'runs': runs, 'uuid_seed': rng.seed(),
            'cb_fail': rng.int(1, 4) if rng.chance(0.1) else None}


def execute(sc, ctx):
    s = clientrun.Session(ctx, sc, mute=True)
    try:
        for r in range(sc['runs']):
            s.rec.n = 0
            s.rec.fail_exc = None
            s.rec.fail_at = sc.get('cb_fail')
            n0 = len(s.net.executions)
            out = s.execute(context=s.context())
            xs = s.net.executions[n0:]
            if len(xs) != 1:
                raise Violation('executions', f'one execute call made {len(xs)} executions ({out.brief()})')
            ctx.probe('outcome_' + clientrun.check_outcome(ctx, xs[0], out, s.rec.fail_exc))
    finally:
        s.close()
