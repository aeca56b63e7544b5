"""C03: what the backend keeps for an execution is released once on success, and the channel always closes."""
from .. import client, clientrun
from ..core import Violation

ID = 'C03'
RUNS = {'quick': 40000, 'thorough': 1500000}
RULE = ('one evaluation = one simulated session of 1-5 executions against 1-3 backends; distinct = different event '
        'histories; non-trivial = a fault was injected')
REAL = ['ficus.grpc_pipelines.* (execute: channel life cycle, release of results)', 'protobuf runtime']
STUB = ['gRPC channel and backend service (reference model that keeps the stored results)', 'clock', 'uuid source']
ASSUMPTIONS = ['a user interrupt arrives while the client waits for the network or inside a user callback, not between '
               'two arbitrary instructions', 'a release call that fails is not repeated']
SHRINK_KEEP = ('t', 'kind', 'op', 'code')


def generate(rng, tier):
    parts = client.gen_parts(rng, rng.int(0, 4), probe_p=0.7)
    runs = rng.int(1, 5) if rng.chance(0.985) else rng.int(8, 20)
    plans = [clientrun.gen_plan(rng, i, faulty=0.55) for i in range(runs)]
    return {'parts': parts, 'ctx': [], 'plans': plans, 'runs': runs, 'uuid_seed': rng.seed(),
            'addr': [rng.pick([None] + clientrun.ADDRS) for _ in range(runs)],
            'cb_fail': rng.int(1, 4) if rng.chance(0.15) else None}


def execute(sc, ctx):
    s = clientrun.Session(ctx, sc, mute=True)
    try:
        left = set()
        for r in range(sc['runs']):
            s.rec.n = 0
            s.rec.fail_exc = None
            s.rec.fail_at = sc.get('cb_fail')
            n0, d0, c0 = len(s.net.executions), len(s.net.drops), len(s.net.channels)
            addr = sc['addr'][r]
            out = s.execute(context=s.context(addr))
            xs = s.net.executions[n0:]
            drops = s.net.drops[d0:]
            if len(xs) != 1:
                raise Violation('executions', f'one execute call made {len(xs)} executions ({out.brief()})')
            x = xs[0]
            for ch in s.net.channels[c0:]:
                if not ch.closed:
                    raise Violation('channel_leak', f'execute {out.brief()} and left its channel to {ch.target} open')
            where = [(d[0], d[1]) for d in drops]
            if x.final_seen and x.final[0] == 'success':
                want = [(x.addr, x.final[1])]
                if where != want:
                    raise Violation('release', f'after success {x.final[1]!r} at {x.addr} the client released {where}')
                ctx.probe('released')
            else:
                if where:
                    raise Violation('release', f'execution {x.index} was not confirmed to the client '
                                               f'({x.plan.get("fault")}) but it released {where}')
                if x.final_sent and x.final_sent[0] == 'success':
                    left.add((x.addr, x.final[1]))
            # conservation at the backends: only what was never confirmed or whose release failed is kept
            for a, kept in s.net.stored.items():
                for g, e in kept.items():
                    if e.final_seen and not e.plan.get('drop'):
                        raise Violation('leak', f'backend {a} still keeps {g} of a finished execution')
        ctx.probe('unconfirmed_results', len(left))
    finally:
        s.close()
