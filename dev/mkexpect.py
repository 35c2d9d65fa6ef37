#!/usr/bin/env python3
"""mkexpect.py N SEED [KIND...]: fills corpus/replay with cases whose observation
TLC accepts on the conforming tree.  N cases per kind (ops: a share of N).
Cases already there are kept if their digest still holds."""
import json, os, random, sys, time
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import pv, gen, cases, check, replay
OPS = {'hl': 0.4, 'dom': 0.4, 'wr': 0.4, 'hist': 0.3, 'ctx': 0.4, 'uid': 0.3, 'html': 0.4, 'fn': 0.5, 'outfiles': 0.4, 'cstr': 0.3, 'cli': 0.06, 'net': 0.25}
CLEAN = {'gmut': 0.5, 'mutant': 0.5, 'soup': 0.5, 'space': 0.7}
def main():
    n, seed, kinds = int(sys.argv[1]), sys.argv[2], sys.argv[3:] or list(gen.PROFILES) + ['op_' + k for k in OPS]
    pv.build()
    with ProcessPoolExecutor(8) as pool:
        list(pool.map(len, ['']))
        for k in kinds:
            t = time.time(); r = random.Random('%s:%s' % (k, seed))
            name, op = k, k.startswith('op_')
            k = k.removeprefix('op_')
            want = int(n * OPS[k]) if op else n
            old = replay.load(name)
            gone = {id(c) for c in replay.run(pool, old)}
            have = [(c, d) for c, d in old if id(c) not in gone][:want]
            seen = {json.dumps(check.sample(c) | {'from': ''}, sort_keys=True) for c, _ in have}
            tries = 0
            while len(have) < want and tries < 12:
                tries += 1
                m = min(9000, int((want - len(have)) * 2.2) + 50)
                cs = list(pool.map(check.make, [('op' if op else 'prog', k, r.randrange(10**9, 2 * 10**9), r.choice(['Warning', 'Warning', 'All', 'Error'])) for _ in range(m)], chunksize=64))
                u = []
                for c in cs:
                    h = json.dumps(check.sample(c) | {'from': ''}, sort_keys=True)
                    if h not in seen and len(h) < 6000: seen.add(h); u.append(c)
                cs = u
                if not op:      # mostly programs without errors
                    obs = [o for part in pool.map(replay.run_simple, [cs[i:i+250] for i in range(0, len(cs), 250)]) for o in part]
                    good = [c for c, o in zip(cs, obs) if o and o['st'] == 'ok' and o['errs'] == 0]
                    rest = [c for c, o in zip(cs, obs) if o and not (o['st'] == 'ok' and o['errs'] == 0)]
                    f = CLEAN.get(k, 0.8)
                    cs = good + rest[:int(len(good) * (1 - f) / f) + 20]
                cs = cs[:want - len(have) + 50]
                cases.execute(cs)
                vs, _ = pv.validate2(cs)
                bad = [(c, v) for c, v in zip(cs, vs) if v['v'] == 'bad']
                for c, v in bad[:3]: print('BAD', k, v['why'], c['from'], json.dumps(check.sample(c), ensure_ascii=False)[:700], v['exp'][:300], flush=True)
                ok = [c for c, v in zip(cs, vs) if v['v'] == 'ok']
                parts = [ok[i:i+250] for i in range(0, len(ok), 250)]
                ds = [d for p in pool.map(replay.digests, parts) for d in p]
                # twice, so that nothing accidental is in the digest
                ds2 = [d for p in pool.map(replay.digests, parts) for d in p]
                have += [(c, d) for c, d, e in zip(ok, ds, ds2) if d and d == e][:want - len(have)]
                if any(d != e for d, e in zip(ds, ds2)): print('UNSTABLE', k, sum(d != e for d, e in zip(ds, ds2)), flush=True)
            replay.save(name, have)
            print(name, len(have), tries, '%d s' % (time.time() - t), os.path.getsize(replay.path(name)), flush=True)
main()
