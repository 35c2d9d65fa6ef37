#!/usr/bin/env python3
"""measure.py [ids]: applies each planted bug to /repo, runs its property's quick check, undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
out = V + '/build/measure.json'
res = json.load(open(out)) if os.path.exists(out) else {}
for i in ids:
    d = '%s/seeded/%s' % (V, i); pid = json.load(open(d + '/meta.json'))['property']
    assert subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode == 0, i
    t = time.time()
    try: r = subprocess.run([V + '/check.sh', pid, 'quick'], capture_output=True, text=True)
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    os.makedirs(V + '/build/measure', exist_ok=True); open(V + '/build/measure/' + i, 'w').write(r.stdout + r.stderr)
    lines = (r.stdout + r.stderr).strip().split('\n')
    res[i] = {'property': pid, 'rc': r.returncode, 'why': lines[-2][:100] if len(lines) > 1 else '', 's': round(time.time() - t)}
    print(i, res[i], flush=True)
    json.dump(res, open(out, 'w'), indent=1)
