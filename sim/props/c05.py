"""C05: executions running at the same time in several threads do not disturb each other."""
from .. import client, clientrun, sched
from ..core import Violation, call

ID = 'C05'
RUNS = {'quick': 20000, 'thorough': 300000}
RULE = ('one evaluation = 2-4 simulated threads executing shared or own pipelines at once under one seeded schedule; '
        'distinct = different event histories (deliveries, callbacks, hand-overs)')
REAL = ['ficus.grpc_pipelines.* run by simulated threads with line-level preemption', 'protobuf runtime']
STUB = ['gRPC channel and backend service (reference model)', 'thread scheduler', 'clock', 'uuid source']
ASSUMPTIONS = ['preemption happens between source lines of the package and at network waits',
               'user callbacks are thread-safe']
SHRINK_KEEP = ('t', 'kind', 'op', 'code')


def generate(rng, tier):
    shared = client.gen_parts(rng, rng.int(1, 4), probe_p=0.6)
    threads = []
    for t in range(rng.weighted([(2, 5), (3, 3), (4, 1)])):
        runs = rng.int(1, 2)
        threads.append({'parts': None if rng.chance(0.6) else client.gen_parts(rng, rng.int(1, 3), probe_p=0.6),
                        'runs': runs, 'addr': rng.pick([None] + clientrun.ADDRS), 'ctx': client.gen_context(rng),
                        'plans': [clientrun.gen_plan(rng, f'{t}-{i}', faulty=0.3) for i in range(runs)]})
    for t in threads:
        for p in t['plans']:
            p.pop('guid', None)     # the backend keeps the executions under way apart
    ctx_shared = rng.chance(0.4)
    if ctx_shared:
        for t in threads:
            t['addr'] = threads[0]['addr']
            t['ctx'] = threads[0]['ctx']
    return {'shared': shared, 'threads': threads, 'switches': sched.gen_switches(rng, 3000), 'hot': sched.gen_hot(rng), 'ctx_shared': ctx_shared,
            'uuid_seed': rng.seed()}


def execute(sc, ctx):
    names = [f'T{i}' for i in range(len(sc['threads']))]
    plans = {n: t['plans'] for n, t in zip(names, sc['threads'])}
    base = {'parts': sc['shared'], 'plans': [], 'uuid_seed': sc['uuid_seed'], 'ctx': []}
    s = clientrun.Session(ctx, base, mute=True, plans=plans)
    try:
        sch = sched.Sched(ctx, sc['switches'], hot=sc.get('hot'))
        s.world.sched = sch
        outs = {}
        own = {}
        shared_context = None
        for i, (n, t) in enumerate(zip(names, sc['threads'])):
            if t['parts'] is not None:
                own[n] = (client.build(t['parts'], s.rec, '', True), client.labels_of(t['parts']), t['parts'])
            else:
                own[n] = (s.pipeline, s.labels, sc['shared'])
            if sc['ctx_shared'] and shared_context is not None:
                context = shared_context
            else:
                context = client.build_context(t['ctx'], s.rec)
                if t['addr'] is not None:
                    context['backend'] = t['addr']
                shared_context = context

            def body(n=n, t=t, context=context):
                for _ in range(t['runs']):
                    h0 = len(s.world.hist)
                    outs.setdefault(n, []).append((call(own[n][0].execute, context), h0, len(s.world.hist)))
            sch.spawn(n, body)
        try:
            sch.run()
        finally:
            s.world.sched = None
        for t in sch.tasks:
            if t.exc is not None:
                raise t.exc
        for n, t in zip(names, sc['threads']):
            xs = [x for x in s.net.executions if x.tid == n]
            if len(xs) != t['runs']:
                raise Violation('executions', f'thread {n} called execute {t["runs"]} times but {len(xs)} reached the net')
            pipeline, labels, parts = own[n]
            for x, (out, h0, h1) in zip(xs, outs[n]):
                if x.addr != (t['addr'] or 'localhost:8080'):
                    raise Violation('address', f'thread {n} asked for {t["addr"]} but its request went to {x.addr}')
                d = client.diff(client.decode(x.request.pipeline), client.expect(parts))
                d = d or client.diff(client.decode_context(x.request), client.expect_context(t['ctx']))
                if d:
                    raise Violation('request', f'thread {n}: request differs: {d}')
                hist = [h for h in s.world.hist[h0:h1] if h[1] == n]
                k = clientrun.check_deliveries(ctx, x, labels, hist)
                ctx.probe('callbacks', k)
                ctx.probe('outcome_' + clientrun.check_outcome(ctx, x, out, None))
                if not x.channel.closed:
                    raise Violation('channel_leak', f'thread {n} left its channel open')
                drops = [(d[0], d[1]) for d in s.net.drops if d[4] == n and d[1] == x.final[1]] \
                    if hasattr(x, 'final') else []
                want = [(x.addr, x.final[1])] if x.final_seen and x.final[0] == 'success' else []
                if drops != want:
                    raise Violation('release', f'thread {n}: released {drops} instead of {want}')
            total = sum(1 for d in s.net.drops if d[4] == n)
            good = sum(1 for x in xs if x.final_seen and x.final[0] == 'success')
            if total != good:
                raise Violation('release', f'thread {n} made {total} releases for {good} confirmed successes')
    finally:
        s.close()
