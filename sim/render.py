"""The Graphviz executable, simulated: it parses the DOT source it is given (a syntax error is an error exit,
as with the real program) and writes "RENDERED <format> <source>".  Plus the DOT reader the oracles use."""
import errno
import json
import os
import subprocess

FORMATS = {'png', 'svg', 'pdf', 'jpg', 'jpeg', 'gif', 'ps', 'dot', 'gv', 'json', 'bmp', 'eps', 'webp', 'xdot', 'plain'}


class DotError(Exception):
    pass


# ---- DOT reader -----------------------------------------------------------------------------------
def tokens(src):
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
        elif src.startswith('//', i) or c == '#':
            while i < n and src[i] != '\n':
                i += 1
        elif src.startswith('->', i) or src.startswith('--', i):
            yield ('op', src[i:i + 2])
            i += 2
        elif c in '{}[]=;,:':
            yield ('op', c)
            i += 1
        elif c == '"':
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise DotError('unterminated string')
                if src[j] == '\\' and j + 1 < n:
                    if src[j + 1] == '"':
                        buf.append('"')
                    else:
                        buf.append(src[j:j + 2])
                    j += 2
                elif src[j] == '"':
                    break
                else:
                    buf.append(src[j])
                    j += 1
            yield ('str', ''.join(buf))
            i = j + 1
        elif c == '<':
            depth, j = 1, i + 1
            while j < n and depth:
                depth += {'<': 1, '>': -1}.get(src[j], 0)
                j += 1
            if depth:
                raise DotError('unterminated html string')
            body = src[i + 1:j - 1]
            if '<' in body or '>' in body:
                raise DotError(f'not well-formed html label {body!r}')
            yield ('html', body)
            i = j
        else:
            j = i
            while j < n and (src[j].isalnum() or src[j] in '_.' or ord(src[j]) > 127 or (src[j] == '-' and j == i)):
                j += 1
            if j == i:
                raise DotError(f'syntax error near {src[i:i + 20]!r}')
            yield ('id', src[i:j])
            i = j


def unescape(s):
    """escString: what Graphviz shows for a label."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            c = s[i + 1]
            if c in 'nlr':
                out.append('\n')
            elif c in 'NGETHL':
                out.append(f'\\{c}!')
            else:
                out.append(c)
            i += 2
        elif s[i] == '\\':
            raise DotError('label ends in a lone backslash')
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def parse(src):
    """-> {'name', 'attrs', 'nodes': {id: attrs}, 'edges': [[a, b, attrs]]}"""
    t = list(tokens(src))
    pos = 0

    def peek():
        return t[pos] if pos < len(t) else (None, None)

    def take(kind=None, val=None):
        nonlocal pos
        k, v = peek()
        if k is None or (kind and k not in kind) or (val is not None and v != val):
            raise DotError(f'syntax error at token {pos}: {v!r}')
        pos += 1
        return k, v

    ident = ('id', 'str', 'html')
    strict = False
    k, v = take(('id',))
    if v == 'strict':
        strict = True
        k, v = take(('id',))
    if v != 'digraph':
        raise DotError('not a digraph')
    name = None
    if peek()[0] in ident:
        name = take(ident)[1]
    take(('op',), '{')
    g = {'name': name, 'attrs': {}, 'nodes': {}, 'edges': [], 'strict': strict}
    default = {}

    def attrs():
        out = {}
        while peek() == ('op', '['):
            take()
            while peek() != ('op', ']'):
                a = take(ident)[1]
                take(('op',), '=')
                kk, vv = take(ident)
                out[a] = ['html', vv] if kk == 'html' else ['text', unescape(vv)]
                if peek()[1] in (',', ';') and peek()[0] == 'op':
                    take()
            take()
        return out

    while peek() != ('op', '}'):
        k, v = take(ident)
        if k == 'id' and v in ('graph', 'node', 'edge') and peek() == ('op', '['):
            a = attrs()
            if v == 'graph':
                g['attrs'].update(a)
            elif v == 'node':
                default.update(a)
            elif a:
                raise DotError('default edge attributes are not expected')
            continue
        if peek() == ('op', '='):
            take()
            kk, vv = take(ident)
            g['attrs'][v] = ['html', vv] if kk == 'html' else ['text', unescape(vv)]
        elif peek() == ('op', '->'):
            take()
            w = take(ident)[1]
            g['edges'].append([v, w, attrs()])
        else:
            g['nodes'].setdefault(v, dict(default)).update(attrs())
        if peek() == ('op', ';'):
            take()
    take(('op',), '}')
    if pos != len(t):
        raise DotError('text after the graph')
    if strict:
        # only one edge is left of those between the same nodes, with the attributes of all
        one = {}
        for a, b, at in g['edges']:
            one.setdefault((a, b), {}).update(at)
        g['edges'] = [[a, b, at] for (a, b), at in one.items()]
    return g


def shown(g):
    """What a viewer sees: nodes (id, label, shape), edges (from, to, label), in a canonical form."""
    nodes = {}
    for a, b, _ in g['edges']:
        for x in (a, b):
            nodes.setdefault(x, ['text', x, 'ellipse'])
    for n, at in g['nodes'].items():
        lab = at.get('label', ['text', n])
        nodes[n] = [lab[0], lab[1], at.get('shape', ['text', 'ellipse'])[1]]
    edges = sorted([a, b, at.get('label', ['text', ''])[1]] for a, b, at in g['edges'])
    return {'nodes': nodes, 'edges': edges, 'bgcolor': g['attrs'].get('bgcolor', ['text', None])[1],
            'rankdir': g['attrs'].get('rankdir', ['text', None])[1]}


def read_rendered(data):
    """-> (format, engine, parsed graph) of a file the simulated renderer wrote completely."""
    if not data.startswith(b'RENDERED ') or not data.endswith(b'\nEND'):
        raise DotError('not a complete rendering')
    head, body = data[:-4].split(b'\n', 1)
    _, fmt, engine = head.decode().split(' ')
    return fmt, engine, parse(body.decode('utf-8'))


# ---- the executable ---------------------------------------------------------------------------------
class Renderer:
    """faults: [{'nth': n, 'kind': 'exit'|'missing'|'partial'|'interrupt'|'killed'}]"""

    def __init__(self, ctx, world, faults=(), delay=0.2):
        self.ctx = ctx
        self.world = world
        self.faults = {f['nth']: f['kind'] for f in faults}
        self.n = 0
        self.delay = delay
        self.failed_in = []

    def _work(self, cmd, cwd, stdin):
        """-> (returncode, stdout, stderr)"""
        self.n += 1
        kind = self.faults.get(self.n)
        self.ctx.ev('render', self.n)
        if kind:
            self.ctx.fault(f'renderer_{kind}')
            self.failed_in.append(self.world.tid())
        if kind == 'missing':
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(cmd[0]))
        s = self.world.sched
        if s is not None and s.current() is not None:
            s.delay(self.delay)
        else:
            self.ctx.advance(self.delay)
        engine, fmt, out, auto, files = os.path.basename(str(cmd[0])), 'dot', None, False, []
        args = [os.fspath(a) if isinstance(a, os.PathLike) else str(a) for a in cmd[1:]]
        i = 0
        while i < len(args):
            a = args[i]
            if a.startswith('-K'):
                engine = a[2:]
            elif a.startswith('-T'):
                fmt = a[2:].split(':')[0]
            elif a == '-O':
                auto = True
            elif a == '-o':
                out = args[i + 1]
                i += 1
            elif a.startswith('-o'):
                out = a[2:]
            elif not a.startswith('-'):
                files.append(a)
            i += 1
        base = os.fspath(cwd) if cwd else os.getcwd()
        if fmt not in FORMATS:
            return 1, b'', f'Format: "{fmt}" not recognized.'.encode()
        if files:
            path = os.path.join(base, files[0])
            try:
                with open(path, 'rb') as f:
                    src = f.read()
            except OSError as e:
                return 2, b'', f'Error: dot: can\'t open {path}: {e}'.encode()
        else:
            src = stdin or b''
        if kind == 'interrupt':
            raise KeyboardInterrupt()
        if kind == 'exit':
            return 1, b'', b'Error: layout failed'
        if kind == 'killed':
            return -9, b'', b''
        try:
            parse(src.decode('utf-8'))
        except (DotError, UnicodeDecodeError) as e:
            return 1, b'', f'Error: syntax error: {e}'.encode()
        data = f'RENDERED {fmt} {engine}\n'.encode() + src + b'\nEND'
        target = None
        if auto and files:
            target = os.path.join(base, files[0] + '.' + fmt)
        elif out is not None:
            target = os.path.join(base, out)
        if kind == 'partial':
            if target is not None:
                with open(target, 'wb') as f:
                    f.write(data[:len(data) // 2])
            return 1, b'', b'Error: write failed'
        if target is None:
            return 0, data, b''
        try:
            with open(target, 'wb') as f:
                f.write(data)
        except OSError as e:
            return 1, b'', str(e).encode()
        return 0, b'', b''

    def run(self, cmd, input=None, capture_output=False, check=False, cwd=None, encoding=None, text=None, **k):
        data = input.encode(encoding or 'utf-8') if isinstance(input, str) else input
        rc, out, err = self._work(cmd, cwd, data)
        if encoding or text:
            out, err = out.decode(encoding or 'utf-8'), err.decode(encoding or 'utf-8')
        p = subprocess.CompletedProcess(cmd, rc, out, err)
        if check:
            p.check_returncode()
        return p

    def popen(self, cmd, cwd=None, encoding=None, **k):
        return _Popen(self, cmd, cwd, encoding)


class _Stdin:
    def __init__(self):
        self.buf = []

    def write(self, x):
        self.buf.append(x)
        return len(x)

    def flush(self):
        pass

    def close(self):
        pass


class _Popen:
    def __init__(self, r, cmd, cwd, encoding):
        self.r, self.args, self.cwd, self.encoding = r, cmd, cwd, encoding
        self.stdin = _Stdin()
        self.returncode = None

    def communicate(self, input=None, timeout=None):
        b = self.stdin.buf + ([input] if input else [])
        data = b''.join(x.encode(self.encoding or 'utf-8') if isinstance(x, str) else x for x in b)
        self.returncode, out, err = self.r._work(self.args, self.cwd, data)
        if self.encoding:
            return out.decode(self.encoding), err.decode(self.encoding)
        return out, err

    def wait(self, timeout=None):
        self.communicate()
        return self.returncode

    def poll(self):
        return self.returncode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---- models -----------------------------------------------------------------------------------------
DOT = '&#9679;'


def expect_graph(v):
    """shown() of a backend graph value (GrpcGraph)."""
    nodes = {str(n.id): ['text', n.data, 'circle'] for n in v.nodes}
    edges = sorted([str(e.from_node), str(e.to_node), e.data] for e in v.edges)
    return nodes, edges


def expect_net(v, show_names, annotation):
    initial = {m.placeId for m in v.initial_marking.markings}
    final = {m.placeId for m in v.final_marking.markings}
    nodes = {}
    for p in v.places:
        if p.id in initial:
            nodes[str(p.id)] = ['html', DOT, 'circle']
        elif p.id in final:
            nodes[str(p.id)] = ['html', DOT, 'doublecircle']
        else:
            nodes[str(p.id)] = ['text', p.name if show_names else '', 'circle']
    edges = []
    ann = annotation or {}
    for t in v.transitions:
        nodes[str(t.id)] = ['text', t.data, 'box']
        for a in t.incomingArcs:
            edges.append([str(a.placeId), str(t.id), ann.get(a.id, '')])
        for a in t.outgoingArcs:
            edges.append([str(t.id), str(a.placeId), ann.get(a.id, '')])
    return nodes, sorted(edges)
