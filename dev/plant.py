#!/usr/bin/env python3
"""plant.py FILE.py: plants the bugs described in FILE.py (a list BUGS), in a
scratch copy of /repo, and keeps those that compile, pass the tests and are
shown by their demonstration, as /verif/seeded/<id>."""
import json, os, subprocess, sys, shutil
WT = '/tmp/plantwt'
def sh(c, cwd=WT, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
# runs the compiler on the sources beside this script and compares what it says with what it should say
d=$(cd "$(dirname "$0")" && pwd); b=$PWD/target/debug/papyri; rc=0
for f in "$d"/*.papyri; do
  got=$(timeout 60 "$b" -i < "$f" 2>&1; echo "exit $?")
  if [ "$got" != "$(cat "${f%.papyri}.expected")" ]; then echo "differs: $(basename "$f")"; echo "$got"; rc=1; fi
done
exit $rc
'''
def setup():
    if not os.path.exists(WT): subprocess.check_call(['cp', '-a', '/repo', WT])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD')
    bs = open('/opt/vp/build.sh').read().replace('/repo', WT); open('/tmp/plant_build.sh', 'w').write(bs)
    ts = open('/opt/vp/test.sh').read().replace('/repo', WT); open('/tmp/plant_test.sh', 'w').write(ts)
STABLE = None
def tests():
    global STABLE
    if STABLE is None:
        b = json.load(open('/opt/vp/BASELINE.json')); STABLE = set(b['stable'] if isinstance(b, dict) and 'stable' in b else b if isinstance(b, list) else b.get('passed') or b.get('tests'))
    sh('bash /tmp/plant_test.sh /tmp/plant_out.json')
    if not os.path.exists('/tmp/plant_out.json'): return ['no result']
    o = json.load(open('/tmp/plant_out.json'))
    passed = set(o['passed']) if 'passed' in o else {k for k, v in o.items() if v in ('pass', 'passed', 'ok', True)}
    return sorted(STABLE - passed)
def plant(b):
    d = os.environ.get('SEEDED', '/verif/seeded') + '/' + b['id']; os.makedirs(d, exist_ok=True)
    for n, src in b.get('src', {}).items(): open('%s/%s.papyri' % (d, n), 'w').write(src)
    open(d + '/demo.sh', 'w').write(b.get('demo') or DEMO); os.chmod(d + '/demo.sh', 0o755)
    for n, t in b.get('files', {}).items(): open('%s/%s' % (d, n), 'w').write(t)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    for n in b.get('src', {}):
        r = sh('timeout 60 ./target/debug/papyri -i < %s/%s.papyri' % (d, n), cwd='/repo')
        open('%s/%s.expected' % (d, n), 'w').write(r.stdout.decode() + ('exit %d\n' % r.returncode))
        print('   expected:', r.stdout.decode()[:400].replace('\n', '\\n'), r.returncode)
    sh('git checkout -q -- .')
    for f, old, new in b['edits']:
        s = open(WT + '/' + f).read()
        if s.count(old) != 1: print(b['id'], 'EDIT MATCHES %d TIMES' % s.count(old), old[:60]); return False
        open(WT + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=WT, stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    r = sh('bash /tmp/plant_build.sh')
    ok = r.returncode == 0
    if not ok: print(b['id'], 'DOES NOT BUILD', r.stdout.decode()[-1500:])
    else:
        t = tests()
        if t: print(b['id'], 'FAILS TESTS', t[:5]); ok = False
        q = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        if q.returncode != 0: print(b['id'], 'DEMO FAILS UNCHANGED', q.stdout.decode()[:500]); ok = False
        p = sh('bash %s/demo.sh' % d, timeout=300)
        if p.returncode == 0: print(b['id'], 'DEMO PASSES WITH PATCH'); ok = False
        else: print('   shown:', p.stdout.decode()[:300].replace('\n', '\\n'))
    sh('git checkout -q -- .')
    if not ok: shutil.rmtree(d)
    print(b['id'], 'KEPT' if ok else 'DROPPED', flush=True)
    return ok
if __name__ == '__main__':
    setup()
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if not only or b['id'] in only: plant(b)
