"""Runs a property's simulation: many seeds over forked workers, minimisation, replay, evidence."""
import gc
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import seams
from .core import Ctx, Rng, Violation, derive, SimCrash
from .shrink import minimise, size

_sub_run = subprocess.run
perf = time.perf_counter
SCRATCH = None


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


_keep = []


def scratch(ctx=None):
    """A fresh scratch directory for one run (removed after it)."""
    global _n
    _n += 1
    d = os.path.join(SCRATCH, f'r{_n}')
    os.makedirs(d)
    _keep.append(d)
    return d


_n = 0


def _clean():
    while _keep:
        shutil.rmtree(_keep.pop(), ignore_errors=True)


def run_one(mod, scenario, limit):
    """-> (ctx, violation or None, error or None)"""
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    v = err = None
    cwd = os.getcwd()
    try:
        mod.execute(scenario, ctx)
    except Violation as e:
        v = (e.kind, e.message)
    except Hang:
        v = ('hang', f'no completion within {limit} s of real time')
    except (SimCrash, KeyboardInterrupt) as e:
        err = f'{type(e).__name__} escaped: ' + traceback.format_exc()
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if seams.world is not None:
            seams.world.__exit__()
        from . import sched
        sched._active = None
        sched._interrupt = None
        if os.getcwd() != cwd:
            os.chdir(cwd)
        if hasattr(mod, 'cleanup'):
            mod.cleanup()
        _clean()
    return ctx, v, err


def scenario_for(mod, seed, i, tier):
    s = derive(seed, mod.ID, i)
    return mod.generate(Rng(s), tier), s


def worker(mod, args, w, jobs, runs, deadline, outfile, limit):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix=f'ficus-sim-{mod.ID}-', dir=args.work)
    res = {'runs': 0, 'faults': {}, 'probes': {}, 'digests': [], 'interleavings': [], 'sim_time': 0.0, 'steps': 0,
           'samples': [], 'violation': None, 'errors': [], 'nontrivial': 0, 'recheck': [0, 0], 'runlog': []}
    seen = set()
    inter = set()
    for i in range(args.first + w, args.first + runs, jobs):
        if perf() > deadline:
            break
        if os.path.exists(args.stop):
            break
        scenario, s = scenario_for(mod, args.seed, i, args.tier)
        ctx, v, err = run_one(mod, scenario, limit)
        res['runs'] += 1
        res['sim_time'] += ctx.now - ctx.start
        res['steps'] += ctx.steps
        for k, n in ctx.faults.items():
            res['faults'][k] = res['faults'].get(k, 0) + n
        for k, n in ctx.probes.items():
            res['probes'][k] = res['probes'].get(k, 0) + n
        dg = ctx.digest()
        if args.digests:
            res['runlog'].append([i, dg, v[0] if v else None])
        if ctx.interleaving is not None and len(ctx.interleaving) > 1:
            inter.add(hash(ctx.interleaving))
        if ctx.log and (ctx.faults or getattr(mod, 'COUNT_ALL', False)):
            seen.add(dg)
        if len(res['samples']) < 2 and ctx.log and (ctx.faults or i > 20):
            res['samples'].append({'run': i, 'seed': s, 'history': ctx.log[:25], 'digest': dg})
        if err:
            res['errors'].append([i, err])
            if len(res['errors']) > 3:
                break
            continue
        if v:
            if v[0] == 'hang':
                ctx2, v2, err2 = run_one(mod, scenario, limit)
                if v2 is None and err2 is None:
                    continue
            res['violation'] = {'run': i, 'seed': s, 'kind': v[0], 'message': v[1], 'scenario': scenario, 'digest': dg}
            open(args.stop, 'w').close()
            break
        if i % 50 == 7:
            ctx2, v2, _ = run_one(mod, scenario, limit)
            res['recheck'][0] += 1
            if ctx2.digest() != dg:
                res['recheck'][1] += 1
                res['samples'].append({'run': i, 'nondeterministic': True, 'a': ctx.log[:60], 'b': ctx2.log[:60]})
    res['digests'] = sorted(seen)
    res['interleavings'] = [int(x) for x in inter]
    with open(outfile, 'w') as f:
        json.dump(res, f)
    shutil.rmtree(SCRATCH, ignore_errors=True)


def replay(mod, args, here):
    global SCRATCH
    with open(args.replay) as f:
        r = json.load(f)
    seams.import_all()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    SCRATCH = tempfile.mkdtemp(prefix=f'ficus-sim-{mod.ID}-', dir=args.work)
    try:
        ctx, v, err = run_one(mod, r['scenario'], getattr(mod, 'LIMIT', 120))
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    for line in ctx.log:
        print('  ' + line)
    if err:
        print(err)
        return 2
    if v:
        print(f'replayed: {v[0]}: {v[1]}')
        print(f'history digest {ctx.digest()} (recorded {r.get("digest")})')
        print(f'VIOLATION property={mod.ID} replay={args.replay}')
        return 1
    print('replayed: the property held')
    return 0


def known_findings(here, pid):
    path = os.path.join(here, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def main(mod, args, here):
    t0 = perf()
    args.work = tempfile.mkdtemp(prefix=f'ficus-sim-{mod.ID}-')
    args.stop = os.path.join(args.work, 'STOP')
    try:
        if args.replay:
            return replay(mod, args, here)
        return search(mod, args, here, t0)
    finally:
        shutil.rmtree(args.work, ignore_errors=True)


def search(mod, args, here, t0):
    runs = args.runs or mod.RUNS[args.tier]
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 3000})[args.tier]
    limit = getattr(mod, 'LIMIT', 120)
    seams.import_all()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    if args.one is not None:
        global SCRATCH
        SCRATCH = args.work
        sc, s = scenario_for(mod, args.seed, args.one, args.tier)
        print(json.dumps(sc))
        ctx, v, err = run_one(mod, sc, limit)
        print('\n'.join(ctx.log))
        print(v, err, ctx.faults, ctx.probes)
        return 0
    t_import = perf() - t0
    gc.collect()
    gc.freeze()
    jobs = max(1, min(args.jobs, runs))
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    deadline = perf() + budget
    for w in range(jobs):
        out = os.path.join(args.work, f'w{w}.json')
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                worker(mod, args, w, jobs, runs, deadline, out, limit)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stderr.flush()
            os._exit(code)
        pids.append((pid, out))
    results = []
    died = 0
    for pid, out in pids:
        os.waitpid(pid, 0)
        try:
            with open(out) as f:
                results.append(json.load(f))
        except (OSError, ValueError):
            died += 1
    total = sum(r['runs'] for r in results)
    faults, probes = {}, {}
    for r in results:
        for k, n in r['faults'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r['probes'].items():
            probes[k] = probes.get(k, 0) + n
    digests = set(d for r in results for d in r['digests'])
    inter = set(d for r in results for d in r['interleavings'])
    errors = [e for r in results for e in r['errors']]
    viols = sorted([r['violation'] for r in results if r['violation']], key=lambda v: v['run'])
    samples = [s for r in results for s in r['samples']]
    samples = [s for s in samples if s.get('nondeterministic')][:2] + [s for s in samples if not s.get('nondeterministic')][:4]
    rc = [sum(r['recheck'][0] for r in results), sum(r['recheck'][1] for r in results)]
    if args.digests:
        with open(args.digests, 'w') as f:
            json.dump(sorted(x for r in results for x in r['runlog']), f)

    known = known_findings(here, mod.ID)
    for k in known:
        print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")

    replay_path = None
    if viols:
        replay_path = report(mod, args, here, viols[0], limit)
    wall = perf() - t0
    sim_wall = max(1e-6, wall - t_import)
    sim_time = sum(r['sim_time'] for r in results)
    coverage = {
        'evaluations': total,
        'distinct_nontrivial': len(digests),
        'rule': mod.RULE,
        'samples': samples,
        'simulated_runs_per_hour': round(total / sim_wall * 3600),
        'seeds_per_hour': round(total / sim_wall * 3600),
        'simulated_seconds_covered': round(sim_time, 3),
        'scheduler_steps': sum(r['steps'] for r in results),
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_interleavings': len(inter),
        'interleaving_measure': 'distinct sequences of (scheduler step, thread handed over to) among simulated threads (0: single-threaded property)',
        'distinct_states_measure': 'distinct hashes of the recorded event history of a run',
        'components_real': mod.REAL,
        'components_stub': mod.STUB,
        'determinism_rechecks': {'runs_repeated': rc[0], 'diverged': rc[1]},
    }
    ev = {'property': mod.ID, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 3), 'violations': len(viols)}
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', f'{mod.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{mod.ID}: {total} runs of {runs}, {len(digests)} distinct histories, {len(inter)} interleavings, '
          f'{sum(faults.values())} faults, {wall:.1f} s, rechecked {rc[0]} diverged {rc[1]}')
    if viols:
        print(f'VIOLATION property={mod.ID} replay={replay_path}')
        return 1
    if errors:
        print(f'CHECK-ERROR in run {errors[0][0]}:\n{errors[0][1]}', file=sys.stderr)
        return 2
    if died:
        print(f'CHECK-ERROR: {died} workers ended without an answer', file=sys.stderr)
        return 2
    if total == 0:
        print('CHECK-ERROR: nothing was explored', file=sys.stderr)
        return 2
    if rc[1]:
        print(f'warning: {rc[1]} of {rc[0]} repeated runs had a different history', file=sys.stderr)
    return 0


def report(mod, args, here, viol, limit):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='shrink-', dir=args.work)
    kind = viol['kind']
    head = viol['message'].split(':')[0] if kind == 'failed' else ''      # which step raised what: not another failure

    def fails(cand):
        try:
            ctx, v, err = run_one(mod, cand, limit)
        except BaseException:
            return False
        return v is not None and v[0] == kind and v[1].startswith(head)

    scenario, tries = viol['scenario'], 0
    if kind != 'hang' and fails(viol['scenario']):
        scenario, tries = minimise(viol['scenario'], fails, budget_s=getattr(mod, 'SHRINK_S', 40),
                                   keep=getattr(mod, 'SHRINK_KEEP', ()))
    if kind != 'hang':
        ctx, v, err = run_one(mod, scenario, limit)
    else:
        ctx, v = Ctx(), (kind, viol['message'])
    d = os.path.join(here, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{mod.ID}-seed{args.seed}-run{viol["run"]}.json')

    def write(sc, vv, dg, log, minimal):
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'verif_seed': args.seed, 'run': viol['run'], 'run_seed': viol['seed'],
                       'violation': {'kind': vv[0], 'message': vv[1]}, 'digest': dg, 'history': log,
                       'minimised': minimal, 'shrink_tries': tries,
                       'size': {'before': size(viol['scenario']), 'after': size(sc)}, 'scenario': sc}, f, indent=1)
    if v is None:
        v = (kind, viol['message'])
        scenario = viol['scenario']
    write(scenario, v, ctx.digest(), ctx.log, scenario is not viol['scenario'])
    print(f'violation in run {viol["run"]} (seed {viol["seed"]}): {v[0]}: {v[1][:2000]}')
    # a fresh process must fail the same way
    try:
        p = _sub_run([sys.executable, os.path.join(here, 'check.py'), mod.ID, '--replay', path],
                     capture_output=True, text=True, timeout=max(300, 2 * limit))
        print(f'replay in a fresh process: exit {p.returncode}')
        if p.returncode != 1 and scenario is not viol['scenario']:
            write(viol['scenario'], (kind, viol['message']), viol['digest'], [], False)
            print('the minimised scenario did not replay; kept the original one')
    except subprocess.TimeoutExpired:
        print('replay in a fresh process: timed out')
    return path


def setup():
    """Nothing to build: the framework is Python and imports the package from /repo's tree.  Proves it can."""
    seams.import_all()
    print(f'setup: {len(seams.codes)} code objects of the package imported from {seams.PKG_ROOT}')
    return 0
