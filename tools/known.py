"""Regenerates known_findings.json (by hand; no check uses it): known entries are kept, fixed ones come from FIXED."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'80c8039': 'P03', '8fc272f': 'P02', '9c1a639': 'P05', 'cabee35': 'P14', '02f4549': 'P06', 'ee5640e': 'P06',
       '9b79c3f': 'P10', 'dcdc047': 'P06', '6d59287': 'P08', '26ee09e': 'P07', 'd9df12b': 'P08', 'be0a7bb': 'P05',
       '48628f3': 'P16', '0b52655': 'P12', 'e09add7': 'P16', 'cc58e3b': 'P19', 'd11a35a': 'P18', '8bf95e8': 'P12',
       'e2dfc3d': 'P14', '924c2e5': 'P21', 'e1b66ae': 'P21'}
import sys
for a in sys.argv[1:]:
    c, p = a.split('=')
    MAP[c] = p
path = os.path.join(HERE, 'known_findings.json')
old = json.load(open(path))['findings']
out = [f for f in old if f['status'] == 'known']
have = {f['commit'][:7]: f['property'] for f in old if f['status'] == 'fixed'}
have.update(MAP)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'], text=True)
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    p = have.get(h[:7])
    if p is None:
        print('no property for', line)
        continue
    out.append(dict(property=p, key='', status='fixed', commit=h[:7],
                    what='fixed: property={} {} {}'.format(p, h[:7], s[4:].strip())))
with open(path, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in out) + '\n]}\n')
