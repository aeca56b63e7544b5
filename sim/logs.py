"""Event logs as JSON specs: generation, building the package's own objects, and reading them back
without using the package's equality (which is hash-based)."""
from datetime import datetime, timedelta, timezone

NAMES = ['A', 'B', 'C', 'D', 'E', 'f', 'Method.Enter', 'Method.Exit', 'a b', 'Ü', 'имя', '日本', '😀', '', '0', 'A::B',
         "it's", 'x"y', '<a>&amp;', 'a,b', '%s', '{0}', 'None', 'tab\there', 'two\nlines', ' lead', 'trail ', 'cr\rlf\r\n',
         'nb\u00a0sp', '\u2028', '\ufffd', ']]>', '  ']
PLAIN = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H']
KEYS = ['org:resource', 'cost', 'lifecycle:transition', 'k"q', 'ключ', 'a b', 'time:timestamp', 'flag', 'x&y', 'k5', 'k6']


def api():
    from ficus.legacy.log import event_log, functions
    from ficus.legacy.util import concept_name
    return event_log, functions, concept_name


# ---- typed values ----------------------------------------------------------------------------------
def gen_value(rng):
    k = rng.pick('ssifbd')
    if k == 's':
        return ['s', rng.pick(NAMES + ['value', 'True', '5', '2020-01-01'])]
    if k == 'i':
        return ['i', rng.pick([0, 1, -1, 5, 2 ** 40, -2 ** 63, 2 ** 53 + 1, 10 ** 30 + 7])]
    if k == 'f':
        return ['f', rng.pick([0.0, 1.0, -2.5, 0.1, 1e300, 1e-300, 123456789.123456789, 0.1 + 0.2])]
    if k == 'b':
        return ['b', rng.chance(0.5)]
    if rng.chance(0.2):
        return ['p', gen_date(rng)]
    return ['d', gen_date(rng, old=True)]


def gen_date(rng, old=False):
    d = datetime(rng.int(1971, 2090) if not old or rng.chance(0.9) else rng.int(2, 9998), rng.int(1, 12), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59),
                 rng.pick([0, 0, 1000, 999000, 123456]))
    tz = rng.pick([None, 0, 180, -330, 60])
    if tz is not None:
        d = d.replace(tzinfo=timezone(timedelta(minutes=tz, seconds=rng.pick([0, 0, 0, 17]) if old else 0)))
    return d.isoformat()


def value(v):
    if v[0] == 'd' and not isinstance(v[1], str):       # a snapshot's
        days, seconds, micros = v[1]
        return datetime(1970, 1, 1, tzinfo=timezone.utc if v[2] else None) + timedelta(days, seconds, micros)
    if v[0] == 'p':
        import pandas
        return pandas.Timestamp(v[1])       # what logs of pm4py hold
    return datetime.fromisoformat(v[1]) if v[0] == 'd' else float(v[1]) if v[0] == 'f' else v[1]


def values(d):
    return {k: value(v) for k, v in d.items()}


# ---- logs ------------------------------------------------------------------------------------------
def gen_log(rng, rich=True, names=NAMES, most=5, longest=6, big=0.015):
    def payload(globs):
        p = {}
        for k in rng.sample(KEYS, rng.weighted([(0, 3), (1, 3), (2, 2), (4, 1)])):
            p[k] = gen_value(rng)
        for k, v in globs.items():
            if k not in p:
                p[k] = v if rng.chance(0.6) else gen_value(rng)
            elif rng.chance(0.3):
                p[k] = near(rng, v)
        return p

    glob = {}
    if rich and rng.chance(0.4):
        for scope in rng.subset(['trace', 'event'], 0.7):
            glob[scope] = {k: gen_value(rng) for k in rng.sample(KEYS, rng.weighted([(0, 1), (1, 5), (2, 5)]))}
    out = {'traces': []}
    big = rng.pick(['traces', 'events', 'payload', 'text']) if rich and rng.chance(big) else None
    for _ in range(rng.int(20, 60) if big == 'traces' else rng.weighted([(0, 1), (1, 3), (2, 4), (most, 2)])):
        t = {'events': []}
        if rich:
            t['attrs'] = payload(glob.get('trace', {}))
            if rng.chance(0.5):
                t['attrs']['concept:name'] = ['s', f'case {rng.int(0, 99)}']
        for _ in range(rng.int(20, 60) if big == 'events' else rng.weighted([(0, 1), (1, 2), (3, 4), (longest, 2)])):
            e = {'n': rng.pick(names)}
            if rich:
                e['p'] = payload(glob.get('event', {}))
                if rng.chance(0.06):
                    # nothing of its own
                    e = {'n': None, 'p': dict(glob.get('event', {})) if rng.chance(0.7) else {}}
            if big == 'payload':
                e['p'].update({f'key {i}': gen_value(rng) for i in range(rng.int(10, 40))})
            if big == 'text':
                e['p']['text'] = ['s', rng.pick(NAMES) * rng.int(100, 3000)]
                if e['n'] is not None and rng.chance(0.3):
                    e['n'] *= rng.int(50, 300)
            t['events'].append(e)
        out['traces'].append(t)
    if rich:
        out['glob'] = glob
        out['attrs'] = {k: rng.pick(['1.0', 'nested-attributes', 'ü"<']) for k in
                        rng.subset(['xes.version', 'xes.features', 'openxes.version'], 0.4)}
        out['ext'] = {n: {'prefix': n.lower(), 'uri': f'http://x/{n}?a=1&b=2'} for n in rng.subset(['Concept', 'Время'], 0.4)}
        out['cls'] = {n: rng.sample(['concept:name', 'lifecycle:transition', 'ключ', 'Activity name', "it's"], rng.int(0, 3)) * rng.weighted([(1, 5), (2, 1)])
                      for n in rng.subset(['Event Name', 'К'], 0.4)}
        out['props'] = {k: gen_value(rng) for k in rng.subset(['source', 'concept:name', 'n', 'ok'], 0.4)}
    return out


def near(rng, v):
    """Another value that is easily taken for v: equal in Python but of another type, or all but equal."""
    if v[0] == 'i':
        return rng.pick([['b', bool(v[1])], ['f', float(v[1])]]) if v[1] in (0, 1) else ['s', str(v[1])] if rng.chance(0.3) else \
            ['i', v[1] + 1]
    if v[0] == 'b':
        return rng.pick([['i', int(v[1])], ['b', not v[1]], ['s', str(v[1])]])
    if v[0] == 'f':
        if float(v[1]).is_integer() and abs(v[1]) < 1e9 and rng.chance(0.7):
            return ['i', int(v[1])]
        return ['f', v[1] * (1 + 2 ** -50)]
    if v[0] == 's':
        return ['s', rng.pick([v[1] + ' ', ' ' + v[1], v[1].swapcase(), v[1] + v[1][-1:], ''])]
    if v[0] == 'd':
        d = datetime.fromisoformat(v[1])
        tz = rng.pick([None, 0, 60, -330])
        # the same wall clock somewhere else, or a moment later
        return ['d', (d.replace(tzinfo=None if tz is None else timezone(timedelta(minutes=tz))) if rng.chance(0.7) else
                      d.replace(microsecond=(d.microsecond + 1) % 1000000)).isoformat()]
    return v


def build(spec):
    el, fn, cn = api()
    traces = []
    for t in spec['traces']:
        events = []
        for e in t['events']:
            d = {cn: e['n']} if e['n'] is not None else {}
            d.update(values(e.get('p', {})))
            events.append(el.MyEvent(d))
        traces.append(el.MyTrace(events, values(t.get('attrs', {}))))
    return el.MyEventLog(traces, dict(spec.get('attrs', {})), {k: dict(v) for k, v in spec.get('ext', {}).items()},
                         {k: list(v) for k, v in spec.get('cls', {}).items()}, values(spec.get('props', {})),
                         {k: values(v) for k, v in spec.get('glob', {}).items()})


class Refill:
    """gives a log, edited in place, the contents of another spec; its traces and events stay the same objects"""

    def __init__(self, log):
        self.log = log
        self.traces = [(t, list(t)) for t in log]

    def __call__(self, spec):
        new = build(spec)
        while len(self.log):
            del self.log[0]
        for i, t in enumerate(new):
            old, events = self.traces[i] if i < len(self.traces) else (t, [])
            made = list(t)
            for j, e in enumerate(made):
                if j < len(events):
                    d = dict(e.payload)
                    events[j].payload.clear()
                    events[j].payload.update(d)
                    made[j] = events[j]
            while len(old):
                del old[0]
            for e in made:
                old.append(e)
            self.log.append(old)
        return self.log


def plain(names):
    """Spec of a log with only event names: [['A','B'],['C']]"""
    return {'traces': [{'events': [{'n': n} for n in t]} for t in names]}


def names_of(log):
    el, fn, cn = api()
    return [[e[cn] for e in t] for t in log]


def snap_value(v):
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', v]
    if isinstance(v, float):
        return ['f', v]
    if isinstance(v, datetime):
        # time since 1970 in UTC (a datetime cannot hold all of them)
        since = v.replace(tzinfo=None) - type(v)(1970, 1, 1) - (v.utcoffset() or timedelta(0))
        return ['d', [since.days, since.seconds, since.microseconds], v.tzinfo is not None]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (list, tuple)):
        return ['l', [snap_value(x) for x in v]]
    if hasattr(v, 'payload'):
        return ['event', snap_dict(v.payload)]
    if hasattr(v, 'set_of_events'):
        return ['activity', v.name]
    return ['?', type(v).__name__]


def snap_dict(d):
    return {str(k): snap_value(v) for k, v in d.items()}


def snap_trace(t):
    return {'attrs': snap_dict(t.attributes), 'events': [snap_dict(e.payload) for e in t]}


def snapshot(log):
    return {'traces': [snap_trace(t) for t in log], 'attrs': dict(log.attributes),
            'ext': {k: dict(v) for k, v in log.extensions.items()}, 'cls': {k: list(v) for k, v in log.classifiers.items()},
            'props': snap_dict(log.properties), 'glob': {k: snap_dict(v) for k, v in log.global_values.items()}}


def expected(spec):
    """snapshot() a reader of the saved file has to return: defaults fill what an entity lacks."""
    def fill(scope, d):
        out = {k: snap_value(value(v)) for k, v in spec.get('glob', {}).get(scope, {}).items()}
        out.update({k: snap_value(value(v)) for k, v in d.items()})
        return out
    traces = []
    for t in spec['traces']:
        ev = []
        for e in t['events']:
            d = {'concept:name': ['s', e['n']]} if e['n'] is not None else {}
            d.update(e.get('p', {}))
            ev.append(fill('event', d))
        traces.append({'attrs': fill('trace', t.get('attrs', {})), 'events': ev})
    sd = lambda d: {k: snap_value(value(v)) for k, v in d.items()}
    return {'traces': traces, 'attrs': dict(spec.get('attrs', {})), 'ext': spec.get('ext', {}), 'cls': spec.get('cls', {}),
            'props': sd(spec.get('props', {})), 'glob': {k: sd(v) for k, v in spec.get('glob', {}).items()}}


# ---- XES written by somebody else ------------------------------------------------------------------
def foreign_xes(spec, style):
    """The same log as another tool would write it.  style: {ns, decl, indent, bools, dates, order, bom}"""
    from xml.sax.saxutils import quoteattr as q0

    def q(s):
        return q0(s, {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})
    pre = 'x:' if style.get('ns') == 'prefix' else ''
    nl = style.get('indent', '')
    tag = {'s': 'string', 'i': 'int', 'f': 'float', 'b': 'boolean', 'd': 'date', 'p': 'date'}

    def val(k, v):
        t, x = v[0], v[1]
        if t == 'b':
            x = style.get('bools', ['true', 'false'])[0 if x else 1]
        elif t in 'dp':
            if style.get('dates') == 'z' and x.endswith('+00:00'):
                x = x[:-6] + 'Z'
        elif t == 'f':
            x = repr(float(x))
        a = [f'key={q(k)}', f'value={q(str(x))}']
        if style.get('order'):
            a.reverse()
        return f'<{pre}{tag[t]} {a[0]} {a[1]}/>{nl}'

    out = []
    if style.get('decl'):
        out.append(f'<?xml version="1.0" encoding="{style["decl"]}" ?>\n')
    if nl:
        out.append('<!-- written elsewhere -->\n')
    root = f'<{pre}log'
    if style.get('ns') == 'default':
        root += ' xmlns="http://www.xes-standard.org/"'
    elif style.get('ns') == 'prefix':
        root += ' xmlns:x="http://www.xes-standard.org/"'
    for k, v in spec.get('attrs', {}).items():
        root += f' {k}={q(v)}'
    out.append(root + '>' + nl)
    head = []
    for n, e in spec.get('ext', {}).items():
        head.append(f'<{pre}extension name={q(n)} prefix={q(e["prefix"])} uri={q(e["uri"])}/>{nl}')
    for scope, d in spec.get('glob', {}).items():
        items = list(d.items())
        # the defaults of one scope may be given in several places
        for part in (items[:1], items[1:]) if style.get('split') else (items,):
            head.append(f'<{pre}global scope="{scope}">{nl}' + ''.join(val(k, v) for k, v in part) + f'</{pre}global>{nl}')
    for n, ks in spec.get('cls', {}).items():
        head.append(f'<{pre}classifier name={q(n)} keys={q(" ".join("'" + k + "'" if " " in k or style.get("quote") and "'" not in k else k for k in ks))}/>{nl}')
    for k, v in spec.get('props', {}).items():
        head.append(val(k, v))
    body = []
    for t in spec['traces']:
        s = f'<{pre}trace>{nl}' + ''.join(val(k, v) for k, v in t.get('attrs', {}).items())
        for e in t['events']:
            d = {'concept:name': ['s', e['n']]} if e['n'] is not None else {}
            d.update(e.get('p', {}))
            items = list(d.items())
            if style.get('order'):
                items.reverse()
            s += f'<{pre}event>{nl}' + ''.join(val(k, v) for k, v in items) + f'</{pre}event>{nl}'
        body.append(s + f'</{pre}trace>{nl}')
    out += (body + head) if style.get('tail') else (head + body)
    out.append(f'</{pre}log>\n')
    enc = style.get('decl') or 'utf-8'
    data = ''.join(out).encode(enc)
    if style.get('bom') and enc.lower() == 'utf-8':
        data = b'\xef\xbb\xbf' + data
    return data


def gen_style(rng):
    return {'ns': rng.pick([None, 'default', 'prefix']), 'decl': rng.pick([None, 'UTF-8', 'utf-16', 'UTF-8']),
            'indent': rng.pick(['', '\n', '\r\n  ', '\n\t']), 'bools': rng.pick([['true', 'false'], ['True', 'False'], ['TRUE', 'FALSE'], ['1', '0']]), 'split': rng.chance(0.3),
            'dates': rng.pick(['z', None]), 'order': rng.chance(0.3), 'tail': rng.chance(0.15), 'bom': rng.chance(0.2), 'quote': rng.chance(0.3)}
