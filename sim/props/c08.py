"""C08: storage faults while saving or loading XES are reported, never turned into a wrong log."""
import os

from .. import logs, runner, seams
from ..client import diff
from ..core import Violation, call, canon, oracle, where
from .c07 import gen_path, gen_platform, load, save

ID = 'C08'
RUNS = {'quick': 24000, 'thorough': 500000}
RULE = ('one evaluation = one simulated history of saves and loads with injected storage errors, interrupts and process '
        'crashes, then recovery; distinct = different histories; non-trivial = at least one fault fired')
REAL = ['ficus.legacy.log.functions', 'ficus.legacy.log.event_log', 'XES pipeline parts', 'xml.etree', 'dateutil']
STUB = ['raw file I/O (errors, short and torn writes, crash, interrupt)', 'process restart (in-memory state dropped)']
ASSUMPTIONS = ['after a crash a file holds a prefix of the bytes handed to the operating system (no block reordering)',
               'a failed save may lose the previous file contents, as a plain overwrite does']
SHRINK_KEEP = ('t', 'kind', 'op', 'locale', 'newline', 'how')


def generate(rng, tier):
    ops = []
    for _ in range(rng.weighted([(1, 2), (2, 3), (3, 2), (5, 1)])):
        k = rng.weighted([('save', 5), ('load', 3), ('poison', 1), ('restart', 0.7)])
        op = {'op': k, 'how': rng.pick(['part', 'fn'])}
        if k != 'restart':
            op['path'] = rng.pick(['log.xes', 'a/log.xes'])
        if k in ('save', 'poison'):
            op['log'] = logs.gen_log(rng, most=rng.pick([2, 4, 12]))
        if k == 'poison':
            op['at'] = rng.pick(['event', 'attr', 'trace', 'char', 'char'])
            op['char'] = rng.pick(['\0', '\x1b', '\ud800', 'a\udcffb', '\ufffe', '\x0c'])
        ops.append(op)
    if ops[0]['op'] == 'load':
        ops.insert(0, {'op': 'save', 'how': 'fn', 'path': ops[0]['path'], 'log': logs.gen_log(rng)})
    plan = gen_platform(rng)
    plan['bufsize'] = rng.pick([1, 16, 64, 300, None])
    if plan['bufsize'] is None:
        del plan['bufsize']
    faults = []
    for _ in range(rng.weighted([(1, 4), (2, 3), (4, 1)])):
        op = rng.weighted([('write', 6), ('read', 3), ('open_w', 1.5), ('open_r', 1), ('close', 1.5), ('mkdir', 0.6)])
        kinds = {'write': ['ENOSPC', 'EIO', 'EDQUOT', 'crash', 'crash', 'interrupt'], 'read': ['EIO', 'interrupt', 'crash'],
                 'open_w': ['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'interrupt', 'crash'],
                 'open_r': ['EACCES', 'EMFILE', 'EIO'], 'close': ['EIO', 'ENOSPC', 'EDQUOT'],
                 'mkdir': ['EACCES', 'ENOSPC', 'EROFS']}[op]
        nth = rng.weighted([(1, 3), (2, 2), (3, 1), (rng.int(1, 12), 3), (rng.int(1, 120), 3)]) if op in ('write', 'read') \
            else rng.int(1, 3)
        faults.append({'op': op, 'nth': nth, 'kind': rng.pick(kinds), 'part': rng.pick([0, 0.3, 0.9, 1]),
                       'sticky': op == 'write' and rng.chance(0.3)})
    plan['faults'] = faults
    return {'ops': ops, 'disk': plan}


def classify(got, allowed):
    """None if the loaded snapshot is one of the allowed logs."""
    for a in allowed:
        if diff(got, a) is None:
            return None
    return diff(got, allowed[-1]) if allowed else 'a log although none was ever saved there'


def execute(sc, ctx):
    root = runner.scratch()
    with seams.World(ctx, root=root, disk_plan=sc['disk']) as w:
        dk = w.disk
        durable = {}      # path -> snapshots the file may hold
        certain = {}      # path -> snapshot it must hold (last save confirmed)
        for op in sc['ops']:
            if op['op'] == 'restart':
                dk.dead = False
                dk.sticky = None
                ctx.ev('restart')
                continue
            path = os.path.join(root, op['path'])
            key = op['path']
            n0 = len(dk.fired)
            if op['op'] == 'save':
                log = logs.build(op['log'])
                before = logs.snapshot(log)
                want = logs.expected(op['log'])
                out = call(save, log, path, op['how'])
                fired = dk.fired[n0:]
                ctx.ev('save', key, 'ok' if out.ok else 'crashed' if out.crashed else 'error', fired)
                d = diff(logs.snapshot(log), before)
                if d:
                    raise Violation('input_changed', f'saving changed the log: {d}')
                if out.ok:
                    # confirmed: the file holds exactly this log
                    durable[key] = [want]
                    certain[key] = want
                    ctx.probe('saved')
                else:
                    if not fired:
                        raise Violation('failed', f'saving {key} {out.brief()} without a fault ({where(out.exc)})')
                    durable[key] = durable.get(key, []) + [want]
                    certain.pop(key, None)
                    ctx.probe('save_failed')
                    if out.crashed:
                        dk.dead = False
                        dk.sticky = None
            elif op['op'] == 'poison':
                # a log that cannot be written: the old file stays
                log = logs.build(op['log'])
                el, fn, cn = logs.api()
                bad = op['at'] == 'char' and len(log)
                if op['at'] == 'attr' or not len(log) or op['at'] == 'event' and not any(len(t) for t in log):
                    log.attributes['xes.version'] = 1.0
                elif op['at'] == 'char':
                    # XML has no such character
                    log[0].attributes['text'] = op['char']
                elif op['at'] == 'trace':
                    log[0].attributes[7] = 'seven'
                else:
                    next(t for t in log if len(t))[0][7] = 'seven'
                old = dk.peek(path)
                out = call(save, log, path, op['how'])
                ctx.ev('poison', key, 'ok' if out.ok else 'error')
                if out.crashed:
                    dk.dead = False
                    dk.sticky = None
                if out.ok and bad:
                    raise Violation('unloadable', f'saving a log with {op["char"]!a} in it succeeded')
                if out.ok:
                    certain.pop(key, None)
                    durable[key] = None      # written somehow: nothing to compare with
                elif dk.fired[n0:]:
                    durable[key] = None if key in durable or dk.peek(path) is not None else durable.get(key)
                    certain.pop(key, None)
                else:
                    ctx.probe('poison_rejected')
                    if dk.peek(path) != old:
                        raise Violation('lost_old', f'{key} was modified although the log could not be serialised')
            else:
                check(ctx, dk, key, path, op['how'], durable, certain)
            if dk.open_files and not dk.dead:
                raise Violation('leak', f'files left open: {sorted(os.path.basename(p) for p in dk.open_files)}')
        # the faults stop: everything can be read or is reported as broken, and saving works again
        dk.restart()
        for key in sorted(durable):
            check(ctx, dk, key, os.path.join(root, key), 'fn', durable, certain)
        for op in sc['ops']:
            if op['op'] == 'save':
                path = os.path.join(root, op['path'])
                out = call(save, logs.build(op['log']), path, op['how'])
                if not out.ok:
                    raise Violation('no_recovery', f'saving {op["path"]} after the faults stopped {out.brief()}')
                got = call(load, path, op['how'])
                d = 'loading ' + got.brief() if not got.ok else diff(logs.snapshot(got.value), logs.expected(op['log']))
                if d:
                    raise Violation('no_recovery', f'{op["path"]} saved again after the faults stopped: {d}')
                ctx.probe('recovered')


def check(ctx, dk, key, path, how, durable, certain):
    n0 = len(dk.fired)
    out = call(load, path, how)
    fired = dk.fired[n0:]
    ctx.ev('load', key, 'ok' if out.ok else 'crashed' if out.crashed else type(out.exc).__name__, fired)
    if out.crashed:
        dk.dead = False
        dk.sticky = None
        return
    if out.ok:
        if durable.get(key, ()) is None:
            return
        with oracle('loaded'):
            got = logs.snapshot(out.value)
            d = classify(got, [certain[key]] if key in certain else durable.get(key, []))
        if d:
            raise Violation('wrong_log', f'loading {key} returned a log that was never saved there: {d}')
        ctx.probe('loaded')
    elif not fired and key in certain:
        raise Violation('lost', f'{key} was saved without an error but loading it {out.brief()}')
    else:
        ctx.probe('load_refused')
