"""Line coverage of /repo/dppy by the checks (development tool; no check uses it).

usage: cov.py OUT.json ID [ID ...]"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'agg')
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
HITS = set()
M = sys.monitoring
M.use_tool_id(4, 'cov')


def line(code, no):
    f = code.co_filename
    if f.startswith('/repo/dppy/'):
        HITS.add((os.path.basename(f), no))
    return M.DISABLE


M.register_callback(4, M.events.LINE, line)
M.set_events(4, M.events.LINE)
import tempfile
from mon import core
D = tempfile.mkdtemp(prefix='cov-')
run = core._run_job


def wrapped(a):
    r = run(a)
    json.dump(sorted(HITS), open(os.path.join(D, '%d.json' % os.getpid()), 'w'))
    return r


core._run_job = wrapped
for p in sys.argv[2:]:
    core.run_check(p, 'quick', 1, only='', nproc=8)
tot = set(HITS)
for f in os.listdir(D):
    tot |= {tuple(x) for x in json.load(open(os.path.join(D, f)))}
json.dump(sorted(tot), open(sys.argv[1], 'w'))
import ast
for f in sorted(os.listdir('/repo/dppy')):
    if not f.endswith('.py'):
        continue
    tree = ast.parse(open('/repo/dppy/' + f).read())
    miss = []
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            for n in ast.walk(fn):
                if isinstance(n, ast.stmt) and n is not fn and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) \
                        and not isinstance(n, (ast.FunctionDef, ast.Pass, ast.Global, ast.Try)):
                    if (f, n.lineno) not in tot:
                        miss.append((n.lineno, fn.name))
    print(f, len(set(miss)), sorted(set(miss)))
