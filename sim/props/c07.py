"""C07: a log written to XES and read back is the same log, whatever the platform and the chunking of I/O."""
import os

from .. import logs, runner, seams
from ..client import diff
from ..core import Violation, call, oracle, where

ID = 'C07'
RUNS = {'quick': 16000, 'thorough': 400000}
RULE = ('one evaluation = one simulated history of saves, overwrites and loads of generated logs under one platform '
        '(locale, newline convention, I/O chunk sizes); distinct = different histories')
REAL = ['ficus.legacy.log.functions', 'ficus.legacy.log.event_log', 'XES pipeline parts', 'xml.etree', 'dateutil']
STUB = ['raw file I/O under the text layer (chunking, locale, newline convention)']
ASSUMPTIONS = ['attribute values are strings, integers, floats, booleans or datetimes and strings hold XML characters only',
               'two datetimes are the same when they denote the same instant']
COUNT_ALL = True
SHRINK_KEEP = ('t', 'kind', 'op', 'locale', 'newline', 'how')


def gen_platform(rng):
    p = {'locale': rng.weighted([('utf-8', 3), ('cp1251', 2), ('latin-1', 2), ('ascii', 1), ('utf-16', 1), ('shift_jis', 1)]),
         'newline': rng.pick([None, '\r\n'])}
    if rng.chance(0.6):
        p['wchunk'] = rng.pick([1, 3, 7, 64, 1000])
    if rng.chance(0.6):
        p['rchunk'] = rng.pick([1, 2, 5, 63, 1000])
    if rng.chance(0.5):
        p['bufsize'] = rng.pick([1, 16, 100, 512])
    return p


def gen_path(rng):
    return rng.pick(['log.xes', 'a/log.xes', 'a/b/журнал.xes', 'a b/x.xes', 'log', 'a/log.xes'])


def generate(rng, tier):
    ops = []
    for _ in range(rng.weighted([(1, 3), (2, 3), (4, 2), (6, 1)])):
        k = rng.weighted([('save', 6), ('foreign', 2), ('string', 1)])
        op = {'op': k, 'log': logs.gen_log(rng, most=rng.pick([3, 5, 12])), 'path': gen_path(rng), 'bare': rng.chance(0.3),
              'how': rng.pick(['part', 'fn'])}
        if k == 'foreign':
            op['style'] = logs.gen_style(rng)
        if k == 'string':
            op['how'] = rng.pick(['xes', 'beautiful'])
        ops.append(op)
        if rng.chance(0.3):
            ops.append({'op': 'again'})
    return {'ops': ops, 'disk': gen_platform(rng)}


def save(log, path, how):
    el, fn, cn = logs.api()
    if how == 'part':
        from ficus.legacy.pipelines.start.start_parts import UseExistingLog
        from ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
        from ficus.legacy.pipelines.pipelines import Pipeline
        return Pipeline(UseExistingLog(), SaveEventLogToXes(lambda _: path))(log)
    fn.save_event_log_to_xes(log, path)


def load(path, how):
    el, fn, cn = logs.api()
    if how == 'part':
        from ficus.legacy.pipelines.start.start_parts import ReadLogFromXes
        from ficus.legacy.pipelines.contexts.accessors import log as get
        from ficus.legacy.pipelines.pipelines import Pipeline
        return get(Pipeline(ReadLogFromXes())(path))
    return fn.read_log_from_xes(path)


def must(out, what):
    if not out.ok:
        raise Violation('failed', f'{what} {out.brief()} without any fault ({where(out.exc) if out.exc else ""})')
    return out.value


def execute(sc, ctx):
    root = runner.scratch()
    el, fn, cn = logs.api()
    with seams.World(ctx, root=root, disk_plan=sc['disk']) as w:
        os.chdir(root)
        files = {}
        last = None
        for op in sc['ops']:
            if op['op'] == 'again':
                # read what is there, write it back, read again
                if last is None:
                    continue
                path, how = last
                log = must(call(load, path, how), f'loading {path}')
                must(call(save, log, path, how), f'saving {path}')
            else:
                path = op['path'] if op['bare'] else os.path.join(root, op['path'])
                how = op['how']
                want = logs.expected(op['log'])
                if op['op'] == 'save':
                    log = logs.build(op['log'])
                    before = logs.snapshot(log)
                    must(call(save, log, path, how), f'saving {path}')
                    d = diff(logs.snapshot(log), before)
                    if d:
                        raise Violation('input_changed', f'saving changed the log: {d}')
                else:
                    if op['op'] == 'foreign':
                        data = logs.foreign_xes(op['log'], op['style'])
                    else:
                        ser = fn.serialize_log_to_xes if how == 'xes' else fn.serialize_log_to_xes_beautiful
                        data = must(call(ser, logs.build(op['log'])), 'serialising').encode('utf-8')
                        how = 'fn'
                    w.disk.armed = False
                    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
                    with seams._real['open'](path, 'wb') as f:
                        f.write(data)
                    w.disk.armed = True
                files[os.path.abspath(path)] = want
                last = (path, how)
            ctx.ev(op['op'], path if op.get('bare') else os.path.basename(path), len(w.disk.peek(os.path.abspath(path)) or b''))
            # every file written so far is intact
            for p, want in files.items():
                got = must(call(load, p, how), f'loading {os.path.basename(p)}')
                with oracle('loaded'):
                    d = diff(logs.snapshot(got), want)
                if d:
                    raise Violation('loaded', f'{os.path.basename(p)}: {d}')
                for name, objs in (('trace', [t.attributes for t in got]), ('event', [e for t in got for e in t])):
                    for i, x in enumerate(objs):
                        x['mark'] = i
                    if any(x['mark'] != i for i, x in enumerate(objs)):
                        raise Violation('shared', f'{os.path.basename(p)}: two {name}s of a loaded log are one object')
                ctx.probe('loads')
                ctx.probe('events', sum(len(t) for t in got))
            if w.disk.open_files:
                raise Violation('leak', f'files left open: {sorted(w.disk.open_files)}')
            extra = [f for f in w.disk.listing() if os.path.join(w.disk.root, f) not in
                     {os.path.realpath(p) for p in files}]
            if extra:
                raise Violation('residue', f'stray files: {extra}')
