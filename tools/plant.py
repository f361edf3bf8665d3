"""Build and confirm planted bugs (development tool; no check uses it).

usage: plant.py SPEC.py [ID ...] [--noverify] [--checks P01,P02]
SPEC.py defines PLANTS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Each plant is written to /verif/seeded/<id>/ after having been confirmed in a scratch copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings; warnings.simplefilter('ignore')\nimport numpy as np\n"


def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def run_tests(cwd):
    xml = os.path.join(cwd, '.junit.xml')
    out = os.path.join(cwd, '.out.json')
    sh([PY, '-m', 'pytest', '-q', '-p', 'vp_seed', '-p', 'no:cacheprovider', '--timeout=300', '--tb=no',
        '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests'], cwd, 900,
       dict(PYTHONPATH='/opt/vp/plugins', PYTHONHASHSEED='0', MPLCONFIGDIR=os.path.join(cwd, '.mpl')))
    sh(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml], cwd)
    return sorted(STABLE - set(json.load(open(out))['passed']))


def one(p, verify, checks):
    work = tempfile.mkdtemp(prefix='plant-')
    log = []
    try:
        repo = os.path.join(work, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        d = os.path.join(work, 'seed')
        os.makedirs(d)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(HEAD + p['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        for x in p.get('extra', ()):
            shutil.copy(x, d)
        json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc, out = sh(['bash', os.path.join(d, 'demo.sh')], repo, 300)
        if rc:
            return p['id'], 'DEMO FAILS ON CLEAN TREE\n' + out[-800:]
        for f, old, new in p['edits']:
            path = os.path.join(repo, f)
            s = open(path).read()
            if s.count(old) != 1:
                return p['id'], 'edit of {} matches {} times: {!r}'.format(f, s.count(old), old)
            open(path, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff'], repo)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        rc, out = sh(['bash', os.path.join(d, 'demo.sh')], repo, 300)
        if rc == 0:
            return p['id'], 'DEMO PASSES WITH THE PATCH'
        log.append('demo: ' + out.strip().splitlines()[-1][:150])
        if verify:
            bad = run_tests(repo)
            if bad:
                return p['id'], 'TESTS FAIL ' + ' '.join(bad)
            dst = os.path.join(HERE, 'seeded', p['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        for c in ([p['prop']] + checks if checks is not None else []):
            rc, out = sh([PY, 'run.py', c, '--nproc', '4'], HERE, 900, dict(DPPY_REPO=repo, VERIF_SCRATCH='1'))
            line = [l for l in out.splitlines() if l.strip().startswith('[')]
            log.append('{}: exit {} {}'.format(c, rc, 'CAUGHT ' + line[0].strip()[:160] if rc == 1 and line else
                                               'MISSED' if rc == 0 else out[-300:]))
        return p['id'], '\n    '.join(log)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    plants = runpy.run_path(args[0])['PLANTS']
    if args[1:]:
        plants = [p for p in plants if p['id'] in args[1:]]
    checks = [c for a in sys.argv if a.startswith('--checks') for c in a.split('=')[1].split(',') if c]
    with ThreadPoolExecutor(4) as ex:
        for i, msg in ex.map(lambda p: one(p, '--noverify' not in sys.argv, checks if '--nochecks' not in sys.argv else None), plants):
            print('== ' + i + '\n    ' + msg, flush=True)


if __name__ == '__main__':
    main()
