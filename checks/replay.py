"""python3-vt checks/replay.py FILE: runs a recorded counterexample against a build of the current /repo; exit 1 if it still fails"""
import json
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import real

d = json.load(open(sys.argv[1]))
if 'script' in d:
    rc, out, err = real.python(d['script'], timeout=600, native=d.get('native', False), sanitize=d.get('sanitize'))
    print(out[-3000:], err[-1500:])
    print('exit', rc)
    sys.exit(1 if rc != 0 else 0)
print(json.dumps(d['case'])[:3000])
r = real.cases([d['case']])[0]
print(json.dumps(r)[:3000])
if r is None or r['crash'] or r['got'] != r['want'] or not r['canary']:
    print('differs from NumPy')
    sys.exit(1)
