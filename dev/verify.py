#!/usr/bin/env python3
"""verify.py [ids]: are the planted bugs still what they say?  -e regenerates what their demonstrations expect"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import plant
from plant import sh, WT, tests
S = '/verif/seeded'
plant.setup()
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(S))
for i in ids:
    d = '%s/%s' % (S, i)
    if '-e' in sys.argv:
        for f in sorted(os.listdir(d)):
            if f.endswith('.papyri') and os.path.exists(d + '/' + f[:-7] + '.expected'):
                r = sh('timeout 60 ./target/debug/papyri -i < %s/%s' % (d, f), cwd='/repo'); open('%s/%s.expected' % (d, f[:-7]), 'wb').write(r.stdout + b'exit %d\n' % r.returncode)
    sh('git checkout -q -- .'); a = sh('git apply %s/patch.diff' % d)
    if a.returncode: print(i, 'DOES NOT APPLY'); continue
    b = sh('bash /tmp/plant_build.sh')
    base = sh('git diff -U0 HEAD | grep "^-[^-]" | cut -c2-').stdout.decode().splitlines()
    orig = sh('git grep -hF -e "" b0d25db -- src').stdout.decode().splitlines() if base else []
    old = sum(l in set(orig) for l in base)
    u = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300); p = sh('bash %s/demo.sh' % d, timeout=300)
    t = tests() if b.returncode == 0 else ['-']
    good = b.returncode == 0 and not t and u.returncode == 0 and p.returncode != 0
    print(i, 'ok' if good else 'BAD build %d tests %s unchanged %d patched %d' % (b.returncode, t[:3], u.returncode, p.returncode), 'lines of the original: %d of %d' % (old, len(base)), flush=True)
    sh('git checkout -q -- .')
