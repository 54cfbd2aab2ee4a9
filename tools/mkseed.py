"""python3 tools/mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (python text); writes seeded/<id>."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = {}
exec(open(sys.argv[1]).read(), s)
W = '/tmp/sw/repo'
subprocess.run('rm -rf /tmp/sw/repo; mkdir -p /tmp/sw; git clone -q /repo /tmp/sw/repo', shell=True, check=True)
for f, old, new in s['edits']:
    p = os.path.join(W, f)
    raw = open(p, newline='').read()
    if '\r\n' in raw:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    k = s.get('nth', {}).get(f)
    assert raw.count(old) == 1 or k is not None, (f, raw.count(old), old)
    if k is None:
        raw = raw.replace(old, new)
    else:
        parts = raw.split(old)
        raw = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    open(p, 'w', newline='').write(raw)
d = os.path.join(V, 'seeded', s['id'])
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout
open(d + '/patch.diff', 'wb').write(diff)
open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\ncd /tmp\nexec python "$here/demo.py"\n')
json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
print(diff.decode(errors='replace'))
