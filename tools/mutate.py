"""Mutation testing of the checks (development tool; no check uses it).

usage: mutate.py FILE N SEED OUT [CHECK ...]   draws N mutants of /repo/dppy/FILE and runs the checks on each until one
reports a violation; survivors are written to OUT for inspection."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}
SKIP = ('plot', 'hist', '__str__', 'info')


# with MUT_LATE=T the mutant only shows when some local array, list or integer is at least T
LATE = '''
import sys as _sys_
def _late_(T):
    import numpy as np
    f = _sys_._getframe(1)
    while f.f_code.co_name.startswith('<'):
        f = f.f_back
    for k, v in list(f.f_locals.items()):
        d = dict(vars(v)) if k == 'self' else {k: v}
        d.update(d.get('params', {}) if isinstance(d.get('params', {}), dict) else {})
        for k, v in d.items():
            if k in ('random_state', 'seed', 'list_of_samples') or any(x in k for x in ('iter', 'trial', 'max')):
                continue
            if isinstance(v, np.ndarray):
                if v.ndim and max(v.shape) >= T:
                    return True
            elif isinstance(v, (list, tuple, range)):
                if len(v) >= T:
                    return True
            elif isinstance(v, (int, np.integer)) and not isinstance(v, bool) and v >= T:
                return True
    return False
'''


def sites(tree):
    """list of (description, function(tree copy) -> None); nodes are addressed by their order in ast.walk"""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any(n.name.startswith(s) or n.name == s for s in SKIP) and isinstance(n, ast.FunctionDef):
                skip.update(id(m) for m in ast.walk(n))
            for d in ast.walk(n):
                if isinstance(d, ast.Raise) or (isinstance(d, ast.Call) and getattr(d.func, 'id', '') in ('print', 'warn')):
                    skip.update(id(m) for m in ast.walk(d))
                if isinstance(d, ast.Assign) and any(isinstance(t, ast.Name) and ('err' in t.id or t.id in ('msg', 'str_info', 'str_list')) for t in d.targets):
                    skip.update(id(m) for m in ast.walk(d))
    infun = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in n.body:
                infun.update(id(x) for x in ast.walk(m))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip or id(n) not in infun:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    out.append((ln, 'cmp', i, k))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            out.append((ln, 'bin', i, 0))
        elif isinstance(n, ast.BoolOp):
            out.append((ln, 'bool', i, 0))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((ln, 'unary', i, 0))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            out.append((ln, 'const', i, 0))
            if not isinstance(n.value, bool):
                out.append((ln, 'const', i, 1))
        elif isinstance(n, (ast.AugAssign, ast.Delete, ast.Break, ast.Continue)) or \
                (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((ln, 'del', i, 0))
        elif isinstance(n, ast.Assign):
            if any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
                out.append((ln, 'del', i, 0))
        elif isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                out.append((ln, 'kw', i, k))
        elif isinstance(n, ast.If):
            out.append((ln, 'iftrue', i, 0))
            out.append((ln, 'iffalse', i, 0))
        elif isinstance(n, ast.Attribute) and n.attr in ('maximum', 'minimum', 'max', 'min', 'sum', 'prod', 'abs', 'sqrt', 'copy', 'T', 'conj', 'sort', 'sorted', 'cumsum'):
            out.append((ln, 'attr', i, 0))
    return out


def apply(tree, site):
    ln, kind, idx, k = site
    tree = copy.deepcopy(tree)
    node = list(ast.walk(tree))[idx]

    late = os.environ.get('MUT_LATE')
    cond = ast.parse('_late_({})'.format(late), mode='eval').body if late else None

    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is node and late:
                orig = copy.deepcopy(n)
                m = self.change(n)
                if kind in ('iftrue', 'iffalse'):
                    orig.test = ast.BoolOp(ast.Or(), [cond, orig.test]) if kind == 'iftrue' else ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), cond), orig.test])
                    return orig
                if m is None:
                    return None
                if isinstance(orig, ast.stmt):
                    return ast.If(cond, [m], [orig])
                return ast.IfExp(cond, m, orig)
            if n is node:
                return self.change(n)
            return self.generic_visit(n)

        def change(self, n):
            if True:
                if kind == 'cmp':
                    n.ops[k] = CMP[type(n.ops[k])]()
                elif kind == 'bin':
                    n.op = BIN[type(n.op)]()
                elif kind == 'bool':
                    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                elif kind == 'unary':
                    return n.operand
                elif kind == 'const':
                    v = n.value
                    n.value = (not v) if isinstance(v, bool) else v + 1 if k == 0 else (v - 1 if isinstance(v, int) else v * 1.1)
                elif kind == 'del':
                    return ast.copy_location(ast.Pass(), n)
                elif kind == 'kw':
                    del n.keywords[k]
                elif kind == 'iftrue':
                    n.test = ast.Constant(True)
                elif kind == 'iffalse':
                    n.test = ast.Constant(False)
                elif kind == 'attr':
                    sw = {'maximum': 'minimum', 'minimum': 'maximum', 'max': 'min', 'min': 'max', 'sum': 'prod', 'prod': 'sum', 'abs': 'negative', 'sqrt': 'square'}
                    if n.attr == 'T':
                        return n.value
                    if n.attr in sw:
                        n.attr = sw[n.attr]
                    else:
                        return None
                return n
    before = ast.unparse(tree)
    tree = R().visit(tree)
    ast.fix_missing_locations(tree)
    after = ast.unparse(tree)
    if late and after != before:
        after = LATE + after
    return before, after


def run_one(args):
    file, site, tree, checks, n = args
    import difflib
    try:
        before, after = apply(tree, site)
    except Exception as e:
        return site, 'skip', str(e), ''
    if before == after:
        return site, 'skip', 'same', ''
    d = '\n'.join(l for l in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm='', n=1) if not l.startswith(('---', '+++')))
    try:
        compile(after, 'x', 'exec')
    except Exception as e:
        return site, 'skip', str(e), d
    work = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo/dppy', os.path.join(work, 'dppy'), ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(work, 'dppy', file), 'w').write(after)
        env = dict(os.environ, DPPY_REPO=work, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', VERIF_SCRATCH='1')
        for c in checks:
            try:
                p = subprocess.run([PY, 'run.py', c, '--nproc', '2', '--seed', '1'], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                return site, 'timeout', c, d
            if p.returncode == 1:
                return site, 'killed', c, d
            if p.returncode != 0:
                return site, 'exit%d' % p.returncode, c + ' ' + p.stdout[-300:], d
        return site, 'SURVIVED', '', d
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    file, n, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    checks = sys.argv[5:]
    tree = ast.parse(open(os.path.join('/repo/dppy', file)).read())
    for node in ast.walk(tree):        # drop docstrings
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant):
            node.body[0] = ast.copy_location(ast.Pass(), node.body[0])
    ss = sites(tree)
    random.Random(seed).shuffle(ss)
    print(file, len(ss), 'sites')
    stats = {}
    with open(out, 'a') as f, ThreadPoolExecutor(int(os.environ.get('MUT_PAR', '4'))) as ex:
        for site, st, c, d in ex.map(run_one, [(file, s, tree, checks, i) for i, s in enumerate(ss[:n])]):
            stats[st] = stats.get(st, 0) + 1
            if st not in ('killed', 'skip'):
                f.write('#### {} {} {} {} {}\n{}\n'.format(file, site, st, c, '', d))
            elif st == 'killed':
                f.write('killed {} {} by {}\n'.format(file, site, c))
            f.flush()
    print(file, stats)


main()
