#!/usr/bin/env python3
"""Collects, per generator profile, seeds whose programs compile without error
(run after changes to gen.py; corpus/ok.json is committed).  On any other tree
they are only inputs: what is expected of them is decided by the specification."""
import os, sys, json
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import pv, gen
WANT, TRIES = 2500, 50000
def one(a): return gen.program(*a)
if __name__ == '__main__':
    pv.build()
    kinds = sys.argv[1:] or list(gen.PROFILES)       # the named generators, or all
    out = {k: v for k, v in json.load(open(V + '/corpus/ok.json')).items() if k not in kinds and k in gen.PROFILES}
    with ProcessPoolExecutor(8) as ex:
        for p in kinds:
            ok, s = [], 0
            while len(ok) < WANT and s < TRIES:
                seeds = list(range(s, s + 4000)); s += 4000
                srcs = list(ex.map(one, [(p, x) for x in seeds], chunksize=200))
                obs = pv.execute([{'op': 'compile', 'src': x, 'level': 'Warning', 'text': True, 'id': 0} for x in srcs])
                ok += [x for x, o in zip(seeds, obs) if o['st'] == 'ok' and o['errs'] == 0 and not o['empty'] and len(o['out']) < 2000]
            out[p] = ok[:WANT]
            print(p, len(ok), s, flush=True)
    json.dump(out, open(V + '/corpus/ok.json', 'w'), separators=(',', ':'))
