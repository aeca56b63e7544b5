#!/opt/venv/bin/python
"""linecov.py OUT.json [RUNS] [ID...]: lines of the package each property's simulation executes (development tool)."""
import importlib
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
want = dict(check.ENV)
if any(os.environ.get(k) != v for k, v in want.items()):
    os.environ.update(want)
    os.execv(check.PY, [check.PY, os.path.abspath(__file__)] + sys.argv[1:])
from sim import runner, seams

out, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 800
ids = sys.argv[3:] or ['C%02d' % i for i in range(1, 19)]
M = sys.monitoring
seams.import_all()
running, files = {}, {}
work = tempfile.mkdtemp(prefix='linecov')
for pid in ids:
    p = os.fork()
    if p == 0:
        lines = set()
        root = seams.PKG_ROOT

        def line(code, no):
            if code.co_filename.startswith(root):
                lines.add((code.co_filename[len(root):], no))
            return M.DISABLE
        M.use_tool_id(5, 'linecov')
        M.register_callback(5, M.events.LINE, line)
        M.set_events(5, M.events.LINE)
        mod = importlib.import_module(f'sim.props.{pid.lower()}')
        runner.SCRATCH = tempfile.mkdtemp(dir=work)
        if hasattr(mod, 'prepare'):
            mod.prepare()
        bad = 0
        for i in range(n):
            sc, s = runner.scenario_for(mod, 1, i, 'quick')
            ctx, v, err = runner.run_one(mod, sc, 120)
            bad += bool(v or err)
        json.dump({'lines': sorted(lines), 'bad': bad}, open(os.path.join(work, pid), 'w'))
        os._exit(0)
    running[p] = pid
    if len(running) >= 8:
        q, _ = os.wait()
        running.pop(q)
while running:
    q, _ = os.wait()
    running.pop(q)
res = {}
for pid in ids:
    try:
        r = json.load(open(os.path.join(work, pid)))
        res[pid] = r['lines']
        print(pid, len(r['lines']), 'bad', r['bad'])
    except OSError:
        print(pid, 'died')
json.dump(res, open(out, 'w'))
