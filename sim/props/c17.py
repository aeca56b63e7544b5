"""C17: what local reports print, write or plot about a log and its activities is complete and true, or an error is reported."""
import ast
import copy
import math
import os
import re

from .. import legacy, logs, runner, sched, seams
from ..client import diff
from ..core import Violation, call, oracle, where
from .c14 import UserError, Users, nodes_of

ID = 'C17'
RUNS = {'quick': 25000, 'thorough': 400000}
RULE = ('one evaluation = one history of discovery steps and reports over one log, with failing storage, standard output, user '
        'functions and user interrupts before the judged attempt; every report is compared with a reference computed from the '
        'result it was made from; distinct = different histories')
REAL = ['ficus.legacy.pipelines (report parts, discovery parts)', 'ficus.legacy.analysis.event_log_info', 'ficus.legacy.analysis',
        'matplotlib artists', 'Python text layer']
STUB = ['raw file I/O', 'platform encoding and line ending', 'standard output', 'matplotlib rasteriser', 'randomness']
ASSUMPTIONS = ['names hold no line breaks (the reports are line-based)', 'entropy values are not judged, only that bar and legend agree',
               'a name the platform encoding cannot express may be an error']
COUNT_ALL = True
SHRINK_KEEP = ('op', 's', 'ex', 'kind', 'n', 'metric')

TEXT = ['PrintInfo', 'PrintDFG', 'PrintUnderlying', 'BeforeAfter']
ACT_TEXT = ['PercentUnattached', 'PrintUnattached', 'PrintCount', 'PrintActivities', 'PrintHashes']
FILE = ['SaveNames']
ACT_FILE = ['SaveActs', 'SaveInst', 'SaveIdx']
PLOT = ['Histogram', 'Histograms', 'EntropyHist']
DIRECT = ['LogInfo']
CURVE = ['TillEndDirect', 'TillEndIndirect']
DISC = ['FromRepeats', 'FromTandemArrays', 'SeveralLevels', 'Adjust', 'AdjustUnattached', 'InUnattached', 'ClearActivities',
        'DiscoverActivitiesInTraces']
COUNTS = ('FromRepeats', 'FromTandemArrays', 'Adjust', 'AdjustUnattached', 'InUnattached', 'DiscoverActivitiesInTraces')
# parts that edit the log in place
EDIT = ['PreNames', 'PreNames', 'PreEvents', 'ApplyClass', 'StartEnd']
ODD = ['A', 'B', 'Ü', 'имя', 'a b', 'x"y', "it's", '<a>', 'a: 1', 'A=B', 'a,b', '0', '%s', '{0}', ' lead', 'A::B', 'b\\n', '[x]', '_x', '_', '$a$', r'b $\q$', '$5']
START, END = 'FAKE_START', 'FAKE_END'


def generate(rng, tier):
    al = None if rng.chance(0.6) else rng.sample(ODD, rng.int(2, 6))
    names = legacy.gen_names(rng, most=4, longest=rng.pick([6, 10, 14]), alphabet=al)
    al = sorted({n for t in names for n in t}) or ['A']
    ops, have = [], False
    for _ in range(rng.int(2, 7)):
        k = rng.weighted([('report', 6), ('discover', 3), ('abstract', 1.2), ('remove', 0.6), ('edit', 0.5), ('again', 0.7)])
        if k == 'discover' or (not have and rng.chance(0.3)):
            ops.append({'op': 'do', 'st': legacy.gen_step(rng, rng.pick(DISC[:3] if not have else DISC), al)})
            have = True
        elif k == 'abstract' and have:
            ops.append({'op': 'do', 'st': dict(legacy.gen_step(rng, 'FromActivities', al), hashes=False)})
            have = False
        elif k == 'remove':
            ops.append({'op': 'do', 'st': legacy.gen_step(rng, rng.pick(['RemovePred', 'ByCount', 'ByVariants', 'Substitute']), al)})
            have = False
        elif k == 'edit':
            before = [o for o in ops[-2:] if o['op'] == 'report' and o['st']['s'] not in ACT_TEXT + ACT_FILE]
            st = legacy.gen_step(rng, rng.pick(EDIT), al)
            if 'ex' in st and rng.chance(0.5):
                st['ex'] = rng.pick(['one', 'half'])
            ops.append({'op': 'do', 'st': st})
            have = False
            if before:
                ops.append(before[-1])
        elif k == 'again' and any(o['op'] == 'report' and (have or o['st']['s'] not in ACT_TEXT + ACT_FILE) for o in ops):
            ops.append(rng.pick([o for o in ops if o['op'] == 'report' and (have or o['st']['s'] not in ACT_TEXT + ACT_FILE)]))
        else:
            s = rng.weighted([(TEXT, 3), (FILE, 1), (PLOT, 0.5), (CURVE, 0.3), (DIRECT, 0.5)] + ([(ACT_TEXT, 4), (ACT_FILE, 4)] if have else []))
            s = rng.pick(s)
            if s == 'BeforeAfter':
                inner = rng.pick(['RemoveNames', 'RemovePred', 'ByCount', 'ByVariants', 'PosDirect', 'Substitute'])
                st = {'s': s, 'title': rng.pick(['op', 'Операция', 'x: 1']), 'inner': legacy.gen_step(rng, inner, al)}
            elif s == 'Histograms':
                st = {'s': s, 'file': rng.int(0, 5), 'save': rng.chance(0.5), 'n': rng.int(1, 5), 'paths': rng.chance(0.4)}
            elif s == 'LogInfo':
                st = {'s': s, 'skip': rng.sample(al, rng.int(0, min(2, len(al)))) if rng.chance(0.5) else None, 'fake': rng.chance(0.5),
                      'not': [rng.int(0, 12) for _ in range(rng.int(0, 5))]}
            else:
                st = legacy.gen_step(rng, s, al)
            if s in PLOT:
                st['title'] = rng.pick([None, 'T', 'Заголовок', 'a: 1', '_t', r'$\q$'])
            op = {'op': 'report', 'st': st, 'in': rng.weighted([('bare', 4), ('pipe', 2), ('copy', 2)]), 'faults': []}
            for _ in range(rng.weighted([(0, 5), (1, 4), (2, 1)])):
                op['faults'].append({'kind': rng.pick(['interrupt', 'disk', 'disk', 'stdout', 'user']), 'at': rng.int(1, rng.pick([3, 20, 120])),
                                     'what': rng.pick(['write', 'write', 'open_w', 'close'])})
            ops.append(op)
    return {'names': names, 'ops': ops, 'seed': rng.seed(),
            'disk': {'locale': rng.weighted([('utf-8', 4), ('cp1251', 1), ('latin-1', 1), ('ascii', 1), ('utf-16', 0.5)]),
                     'newline': rng.weighted([(None, 3), ('\r\n', 1)]), 'wchunk': rng.pick([None, None, 1, 7]),
                     'bufsize': rng.pick([None, None, 1, 16])}}


# ---- reference ----------------------------------------------------------------------------------------------
def names_of(r):
    return logs.names_of(legacy.mods().acc.log(r))


def info(names):
    return [len(names), sum(map(len, names)), len({n for t in names for n in t})]


def dfg(names, skip):
    out = {}
    for t in names:
        if t:
            for a, b in zip([START] + t, t + [END]):
                if a not in skip:
                    out.setdefault(a, {})
                    out[a][b] = out[a].get(b, 0) + 1
    return out


def below(e):
    return sum(below(u) for u in e['UnderlyingEvents']) if 'UnderlyingEvents' in e else 1


def unattached(r):
    m = legacy.mods()
    out = []
    for t, inst in zip(names_of(r), m.acc.traces_activities(r)):
        held = {i for a in inst for i in range(a.start_pos, a.start_pos + a.length)}
        out += [n for i, n in enumerate(t) if i not in held]
    return out


# ---- readers ------------------------------------------------------------------------------------------------
def last_number(line):
    f = re.findall(r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?', line)
    return whole(float(f[-1])) if f else None


def whole(x):
    return int(x) if x == int(x) else x


def read_info(lines):
    """[traces, events, classes] of every block"""
    out, cur = [], {}
    for ln in lines:
        low = ln.lower()
        if not low.startswith('number of'):
            continue
        k = 'c' if 'class' in low else 't' if 'traces' in low else 'e'
        cur[k] = last_number(ln)
        if len(cur) == 3:
            out.append([cur['t'], cur['e'], cur['c']])
            cur = {}
    if cur:
        out.append(cur)
    return out


def read_dfg(lines):
    out, cur = {}, None
    for ln in lines:
        mt = re.fullmatch(r'Followers of (.*):', ln)
        if mt:
            if mt.group(1) in out:
                raise Violation('dfg', f'{mt.group(1)!r} is reported twice')
            cur = out[mt.group(1)] = {}
        elif ln == '' and cur is None:
            continue
        elif ln == '':
            cur = None
        else:
            n, _, c = ln.rpartition(': ')
            if cur is None or n in cur:
                raise Violation('dfg', f'line {ln!r} belongs to no event or repeats one')
            cur[n] = int(c)
    return out


def segments(steps):
    """heights of a filled step outline over [i, i+1]"""
    out = {}
    for poly in steps:
        for (x0, y0), (x1, y1) in zip(poly, poly[1:]):
            if y0 == y1 and x0 != x1 and y0 > 0:
                lo, hi = sorted((x0, x1))
                for i in range(int(lo), int(hi)):
                    out[i] = max(out.get(i, 0), whole(y0))
    return sorted(out.values())


def variants(names):
    c = {}
    for t in names:
        c[tuple(t)] = c.get(tuple(t), 0) + 1
    return sorted(c.values())


def same(got, want, what):
    d = diff(got, want)
    if d:
        raise Violation('report', f'{what}: {d}')


# ---- the judged reports ---------------------------------------------------------------------------------------
def judge_text(st, r, res, text):
    m = legacy.mods()
    lines = text.split('\n')
    s = st['s']
    if s == 'PrintInfo':
        same(read_info(lines), [info(names_of(r))], 'log information')
    elif s == 'BeforeAfter':
        same(read_info(lines), [info(names_of(r)), info(names_of(res))], 'information before and after')
    elif s == 'PrintDFG':
        same(read_dfg(lines), dfg(names_of(r), st['names']), 'followers')
    elif s == 'PrintUnderlying':
        same([last_number(ln) for ln in lines if ln], [sum(below(e) for t in m.acc.log(r) for e in t)], 'underlying events')
    elif s == 'PercentUnattached':
        total = sum(map(len, names_of(r)))
        nums = [last_number(ln) for ln in lines if 'ercentage of' in ln and last_number(ln) is not None]
        if total == 0:
            same(nums, [], 'percentage of nothing')
        elif len(nums) != 1 or abs(nums[0] - len(unattached(r)) / total) > 1e-9:
            raise Violation('report', f'percentage of unattached events is {nums}, not {len(unattached(r))}/{total}')
    elif s == 'PrintUnattached':
        got = ast.literal_eval(text.strip())
        same(sorted(got), sorted(set(unattached(r))), 'unattached events')
    elif s == 'PrintCount':
        same([last_number(ln) for ln in lines if ln], [len(m.acc.activities(r))], 'number of activities')
    elif s == 'PrintActivities':
        want = [a.name for a in m.acc.activities(r) if a.name]      # an empty name is an empty line
        got = [ln for ln in lines if ln and ln != 'Found activities:']
        same(got, want if st['do'] else [], 'activities')
    elif s == 'PrintHashes':
        want = [[str(hash(n)), n.name] for n in nodes_of(m.acc.activities(r))]
        same(sorted(list(ln.partition(' = ')[::2]) for ln in lines if ln), sorted(want), 'activities and hashes')


def judge_info(st, r, got):
    names = names_of(r)
    skip = set(st['skip'] or ())
    kept = [[n for n in t if n not in skip] for t in names]
    pairs, counts = {}, {}
    for t in kept:
        for n in t:
            counts[n] = counts.get(n, 0) + 1
        for ab in zip(([START] if st['fake'] and t else []) + t, t[1 - (st['fake'] and bool(t)):] + ([END] if st['fake'] else [])):
            pairs[ab] = pairs.get(ab, 0) + 1
    foll = {}
    for (a, b), c in pairs.items():
        foll.setdefault(a, {})[b] = c
    flat = [n for t in names for n in t]
    bad = {n for i, n in enumerate(flat) if i in st['not']}
    want = {'pairs': sorted([list(k), v] for k, v in pairs.items()), 'followed': foll,
            'single': sorted(a for a, bs in foll.items() if len(bs) == 1), 'counts': counts,
            'traces': [[{n: t.count(n) for n in t}, len(t)] for t in names], 'total': len(flat),
            'all': flat, 'hold': sorted(set(flat) - bad)}
    same(got, want, 'log information')


def decode(data, plan):
    plan = plan or {'locale': 'utf-8', 'newline': None}
    text = data.decode(plan['locale'])
    return text.replace(plan['newline'], '\n') if plan['newline'] else text


def judge_file(st, r, text):
    m = legacy.mods()
    s = st['s']
    if s == 'SaveNames':
        want = sorted({n for t in names_of(r) for n in t})
        same(sorted(text.split('\n\n')) if text or want == [''] else [], want, 'event names')
    elif s == 'SaveActs':
        got = []
        bits = re.split(r'={40,}', text)
        for head, body in zip(bits[0::2], bits[1::2]):
            level = re.search(r'LEVEL (-?\d+)', head)
            got.append([int(level.group(1)), sorted(body.split('\n')[1:-1])])
        by = {}
        for a in m.acc.activities(r):
            by.setdefault(a.activity_level, []).append(a)
        same(got, [[lv, sorted({n.name for n in nodes_of(by[lv])})] for lv in sorted(by)], 'activities by levels')
        if bits[-1].strip():
            raise Violation('report', f'unfinished text after the last section: {bits[-1]!r}')
    elif s == 'SaveInst':
        want = {id(i.node): f'{i.node.unique_name()}={i.node.name}' for t in m.acc.traces_activities(r) for i in t}
        same(sorted(text.split('\n')[:-1]), sorted(want.values()), 'activities with instances')
    elif s == 'SaveIdx':
        got = []
        for ln in text.split('\n'):
            if re.fullmatch(r'Trace \d+', ln):
                got.append([ln, []])
            elif ln:
                got[-1][1].append(ln)
        want = [[f'Trace {k}', [f'({i.node.unique_name()}, {i.start_pos}, {i.length})' for i in t]]
                for k, t in enumerate(m.acc.traces_activities(r))]
        same(got, want, 'instances')


def judge_curve(st, r, text, pts):
    """the metric at every removal, until nothing is left"""
    from ficus.legacy.analysis.event_log_analysis_entropy import calculate_position_entropies_fast

    def total(names):
        return sum(calculate_position_entropies_fast(logs.build(logs.plain(names))).values()) if any(names) else 0
    cur = [t for t in names_of(r) if t]
    done = [(m.group(1), float(m.group(2))) for m in (re.fullmatch(r'Removing (?:event )?(.*) with [a-z ]+ (\S+)', ln) for ln in text.split('\n')) if m]
    full = {n for t in cur for n in t}
    same(sorted(n for n, _ in done), sorted(full & {n for n, _ in done}), 'removed events')
    ys = []
    for n, v in done:
        before = total(cur)
        cur = [t for t in ([x for x in t if x != n] for t in cur) if t]
        ys.append(before if st['metric'] == 1 else before - (total(cur) if st['s'] == 'TillEndDirect' else v))
    # the entropy of a single trace is 0 / 0: there the indirect filter finds nothing to remove
    if cur and (st['s'] == 'TillEndDirect' or not any(math.isnan(total([[x for x in t if x != n] for t in cur])) for n in {n for t in cur for n in t})):
        raise Violation('report', f'{st["s"]}: removing stops at {cur}')
    off = lambda a, b: not (abs(a - b) <= 1e-4 or math.isnan(a) and math.isnan(b))
    if len(pts) != len(ys) or any(abs(p[0] - i) > 1e-9 or off(p[1], y) for i, (p, y) in enumerate(zip(pts, ys))):
        raise Violation('report', f'{st["s"]}: the curve is {pts} instead of {ys}')


def judge_plot(st, r, desc):
    names = names_of(r)
    s = st['s']
    if 'title' in st and (desc[0]['xlabel'] if s == 'EntropyHist' else desc[0]['suptitle']) != (st['title'] or ''):
        raise Violation('report', f'{s}: title is {desc[0]["xlabel"]!r} {desc[0]["suptitle"]!r} instead of {st["title"]!r}')
    if s == 'Histogram':
        same([segments(a['steps']) for a in desc], [variants(names)], 'traces histogram')
    elif s == 'Histograms':
        got = [[a['title'], segments(a['steps'])] for a in desc if a['title'] or a['steps']]
        same(got, [[f'log{k}', variants(sub(names, k))] for k in range(st['n'])], 'traces histograms')
    else:
        al = {n for t in names for n in t}
        heights = sorted(x[3] for x in desc[0]['rects'])
        leg = [(t.rpartition(' ')[0], float(t.rpartition(' ')[2])) for t, _ in desc[0]['legend'] or []]
        same(sorted(n for n, _ in leg), sorted(al), 'events in the legend')
        vals = sorted(abs(v) for _, v in leg)
        if len(vals) != len(heights) or any(abs(a - b) > 1e-4 for a, b in zip(vals, heights)):
            raise Violation('report', f'bars of the entropy histogram: {heights} instead of {vals}')
        bars = sorted((x[4], x[3]) for x in desc[0]['rects'])
        told = sorted((c, abs(v)) for (_, v), (_, c) in zip(leg, desc[0]['legend'] or []))
        if any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-4 for a, b in zip(bars, told)):
            raise Violation('report', f'the legend gives colours and values {told}, the bars {bars}')


def sub(names, k):
    return names[:max(1, len(names) - k)]


def build(st, root, r, users):
    m = legacy.mods()
    if st['s'] == 'BeforeAfter':
        return m.an.PrintEventLogInfoBeforeAndAfter(st['title'], m.pl.Pipeline(legacy.build(st['inner'], root)))
    if st['s'] == 'LogInfo':
        class Info(m.pl.InternalPipelinePart):
            got = None

            def execute(self, x):
                from ficus.legacy.analysis import event_log_info as ei
                lg = m.acc.log(x)
                place = {id(e): i for i, e in enumerate(e for t in lg for e in t)}
                i = ei.create_log_information(lg, None if st['skip'] is None else set(st['skip']), st['fake'])
                if st['skip'] is None and not st['fake']:
                    i.dfg = ei.create_dfg(lg)
                seen = []
                ei.apply_to_all_events(lg, users.wrap(lambda e: seen.append(e['concept:name'])))
                self.got = {'pairs': sorted([list(k), v] for k, v in i.dfg.pairs.items()), 'followed': i.dfg.followed_events,
                            'single': sorted(getattr(i.dfg, 'events_with_single_follower', sorted(a for a, b in i.dfg.followed_events.items() if len(b) == 1))), 'counts': i.events_count,
                            'traces': [[c.counts, c.overall_count] for c in ei.calculate_events_in_each_trace(lg)],
                            'total': ei.calculate_events_count(lg), 'all': seen,
                            'hold': sorted(ei.find_all_events_names(lg, users.wrap(lambda e: place[id(e)] not in st['not'])))}
                return x
        return Info()
    if st['s'] == 'Histograms':
        class Plots(m.pl.InternalPipelinePart):
            def execute(self, x):
                from ficus.legacy.analysis import event_log_analysis as ea
                lgs = [logs.build(logs.plain(sub(names_of(x), k))) for k in range(st['n'])]
                to = legacy.path(st, root, 'png') if st['save'] else None
                if st['paths']:
                    from ficus.legacy.log.functions import save_event_log_to_xes
                    paths = [os.path.join(root, f'log{k}.xes') for k in range(st['n'])]
                    for lg, p in zip(lgs, paths):
                        save_event_log_to_xes(lg, p)
                    ea.plot_logs_traces_histograms_for_paths(paths, save_path=to, title=st['title'])
                else:
                    ea.plot_logs_traces_histograms(lgs, [f'dir/log{k}.xes' for k in range(st['n'])], to, st['title'])
                return x
        return Plots()
    if st['s'] == 'SaveInst':
        st = {**st, 'maker': True}
    return legacy.build(st, root, users.wrap) if st['s'] in ('SaveInst', 'PrintDFG') else legacy.build(st, root)


def execute(sc, ctx):
    m = legacy.mods()
    root = runner.scratch()
    os.chdir(root)
    with seams.World(ctx, root=root, disk_plan=sc['disk'], rand_seed=sc['seed']) as w:
        r = legacy.start(logs.build(logs.plain(sc['names'])))
        for op in sc['ops']:
            st = op['st']
            if op['op'] == 'do':
                n0 = len(w.out)
                o = call(legacy.build(st, root).execute, r)
                if not o.ok:
                    ctx.ev('step fails', st['s'], type(o.exc).__name__)
                    return
                r = o.value
                if st['s'] in COUNTS:
                    with oracle('count'):
                        got = [last_number(ln) for ln in ''.join(t for _, t in w.out[n0:]).split('\n') if 'instances' in ln]
                        if st['s'] == 'InUnattached' or st['s'] == 'DiscoverActivitiesInTraces' or got:
                            same(got[-1:], [sum(map(len, m.acc.traces_activities(r)))], f'number of instances printed by {st["s"]}')
                continue
            if not report(sc, ctx, w, r, op, root):
                return


def report(sc, ctx, w, base, op, root):
    """False when the history cannot go on"""
    m = legacy.mods()
    st = op['st']
    users = Users(ctx)
    part = info = build(st, root, base, users)
    if op['in'] == 'pipe':
        part = m.pl.Pipeline(part)
    elif op['in'] == 'copy':
        part = m.pl.WithInputCopy(m.pl.Pipeline(part)) if st['s'] != 'BeforeAfter' else m.pl.Pipeline(part)
    for f in op['faults'] + [None]:
        n0, k0, nf = len(w.out), len(w.disk.fired), len(w.figures)
        fired = False
        r = base if st['s'] != 'BeforeAfter' else copy.copy(base)      # its inner step changes what it is given
        if f is None:
            o = call(part.execute, r)
        elif f['kind'] == 'interrupt':
            with sched.InterruptAt(ctx, f['at']) as it:
                o = call(part.execute, r)
            fired = it.fired
        elif f['kind'] == 'disk':
            before = list(w.disk.faults)
            w.disk.plan_fault(f['what'], 'ENOSPC' if f['at'] % 2 else 'EIO', 1 + f['at'] % 5)
            o = call(part.execute, r)
            w.disk.faults = before
            fired = len(w.disk.fired) > k0
        elif f['kind'] == 'stdout':
            w.out_left = f['at']
            o = call(part.execute, r)
            fired = w.out_left is None
            w.out_left = None
        else:
            users.left = f['at']
            o = call(part.execute, r)
            fired = users.left is None
            users.left = None
        ctx.ev(st['s'], 'ok' if o.ok else type(o.exc).__name__, fired)
        if not o.ok:
            if fired:
                ctx.probe('report failed')
                continue
            if isinstance(o.exc, UnicodeEncodeError) and sc['disk']['locale'] != 'utf-8' and not encodable(base, sc['disk']['locale']):
                ctx.probe('not encodable')
                return True
            if st['s'] == 'BeforeAfter' and not call(legacy.build(st['inner'], root).execute, copy.copy(base)).ok:
                return True
            raise Violation('failed', f'{st["s"]} {o.brief()} without a fault ({where(o.exc)})')
        with oracle('report'):
            if st['s'] in CURVE:
                from matplotlib import pyplot
                judge_curve(st, base, ''.join(t for _, t in w.out[n0:]), pyplot.gca().lines[-1].get_xydata().tolist())
            elif st['s'] in PLOT:
                figs = w.figures[nf:]
                if len(figs) != 1:
                    raise Violation('report', f'{st["s"]} drew {len(figs)} figures')
                judge_plot(st, base, figs[0][2])
                if st['save'] and w.disk.peek(legacy.path(st, root, 'png')) is None:
                    raise Violation('report', f'{st["s"]} reported success but there is no file')
            elif st['s'] in DIRECT:
                judge_info(st, base, info.got)
            elif st['s'] in FILE + ACT_FILE:
                data = w.disk.peek(legacy.path(st, root, 'txt'))
                if data is None:
                    raise Violation('report', f'{st["s"]} reported success but there is no file')
                try:
                    text = decode(data, sc['disk'])
                except UnicodeDecodeError as e:
                    raise Violation('report', f'{st["s"]} is not readable in the platform encoding: {e}')
                judge_file(st, base, text)
            else:
                judge_text(st, base, o.value, ''.join(t for _, t in w.out[n0:]))
            ctx.probe('reports judged')
        if w.disk.open_files:
            raise Violation('leak', f'files left open after {st["s"]}: {sorted(w.disk.open_files)}')
    return True


def encodable(r, enc):
    m = legacy.mods()
    names = [n for t in names_of(r) for n in t]
    if r.has_value(m.keys.activities_key):
        names += [n.name for n in nodes_of(m.acc.activities(r))]
    if r.has_value(m.keys.traces_activities_key):
        names += [i.node.name for t in m.acc.traces_activities(r) for i in t]
    try:
        ''.join(names).encode(enc)
        return True
    except UnicodeEncodeError:
        return False
