#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import collections, hashlib, json, os, random, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pv, gen, cases, plan, replay
V = pv.V

def make(a):
    what, kind, seed, lvl = a
    if what == 'prog':
        return {'op': 'compile', 'src': gen.program(kind, seed), 'name': '<string>', 'lvl': lvl, 'laws': True, 'from': '%s:%s' % (kind, seed)}
    if what == 'src':
        return {'op': 'compile', 'src': gen.clean(kind), 'name': '<string>', 'lvl': lvl, 'laws': True, 'from': 'corpus'}
    c = cases.case(kind, seed); c['from'] = '%s:%s' % (kind, seed)
    return c

def schedule(pid, tier, seed):
    """the cases to explore, as (what, kind, seed, level): a part drawn from the
    seeds known to give programs without errors, a part fresh"""
    p = plan.PLAN[pid]; r = random.Random('%s:%s:%s' % (pid, tier, seed))
    total = plan.TOTAL[tier]
    ok = json.load(open(V + '/corpus/ok.json'))
    w = sum(p['progs'].values()) + sum(p['ops'].values())
    out = []
    for k, x in p['progs'].items():
        n = total * x // w; known = ok.get(k, [])
        a = min(n * 6 // 10, len(known))
        ss = r.sample(known, a) + [r.randrange(10**6, 10**9) for _ in range(n - a)]
        out += [('prog', k, s, r.choice(p['levels'])) for s in ss]
    for k, x in p['ops'].items():
        n = total * x // w
        if k == 'cli': n = n // plan.CLI_COST
        out += [('op', k, r.randrange(10**6, 10**9), '') for _ in range(n)]
    r.shuffle(out)
    if p['seeds']:
        out = [('src', s, 0, r.choice(p['levels'])) for s in json.load(open(V + '/corpus/seeds.json'))] + out
    return out

DIAG = ('number of', 'summary', 'kind of', 'traceback', 'location', 'panic', 'abort', 'hang', 'success', 'error')
def counts(judge, c, v):
    """does this mismatch concern the property?"""
    if judge == 'all': return True
    why = v['why'].split(': ', 1)[1] if v['why'].startswith('step ') else v['why']
    if judge == 'diag': return why.startswith(DIAG)
    if why in ('panic', 'abort', 'hang') or c['op'] == 'fn' or c['from'].startswith('hist:'): return True
    o = c['obs']
    if c['op'] == 'compile': return any('ICE' in d['k'] or d['k'] == 'InternalCompilerError' for d in o.get('diags', [])) or (why == 'number of errors' and o.get('errs') == 0)
    return why == 'success'

def nontrivial(c, v):
    return v['v'] == 'ok' and v['why'] != 'errors'
def sample(c):
    d = {k: c[k] for k in c if k not in ('obs', 'panic', 'cwd', 'laws', 'hl', 'dom')}
    return d

def run_replay(pool, st, pid, tier, seed):
    """replays the cases the specification has decided before; those that now
    differ from what it accepted are decided again"""
    p = plan.PLAN[pid]; r = random.Random('replay:%s:%s' % (pid, seed))
    cs = [x for k in list(p['progs']) + ['op_' + k for k in p['ops']] for x in replay.load(k)]
    t = time.time(); bad = replay.run(pool, cs); st['exec_s'] += time.time() - t
    st['digests'] += len(cs) - len(bad); st['differ'] += len(bad)
    if len(bad) > plan.REJUDGE: bad = r.sample(bad, plan.REJUDGE)
    return judge_cases(bad, pool, st, pid, p['judge'], replayed=True) if bad else []

def run_cases(sched, pool, st, pid, judge):
    return judge_cases(list(pool.map(make, sched, chunksize=64)), pool, st, pid, judge)
def judge_cases(cs, pool, st, pid, judge, replayed=False):
    """executes and validates one batch; returns the violations"""
    t = time.time(); cases.execute(cs); st['exec_s'] += time.time() - t
    cs = [c for c in cs if 'obs' in c]      # execution stops early when too many hang
    t = time.time(); vs, stats = pv.validate2(cs); st['tlc_s'] += time.time() - t
    st['states'] += stats[1]; st['transitions'] += stats[0]
    bad = []
    for c, v in zip(cs, vs):
        st['n'] += 1; st[v['v']] += 1; st['by:' + c['from'].split(':')[0]] += 1
        h = hashlib.md5(json.dumps(sample(c) | {'from': ''}, sort_keys=True).encode()).digest()
        if h not in st['seen']:
            st['seen'].add(h)
            if nontrivial(c, v):
                st['nontrivial'] += 1
                if len(st['samples']) < 3 and c['from'] != 'corpus' and len(json.dumps(sample(c))) < 1500: st['samples'].append(sample(c))
        if v['v'] == 'bad' and counts(judge, c, v): bad.append((c, v))
    return bad

def report(pid, c, why, exp):
    d = V + '/build/replay'; os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'why': why, 'case': {k: c[k] for k in c if k not in ('obs', 'hl', 'dom')}, 'observed': c.get('obs'), 'expected': exp}
    p = '%s/%s-%s.json' % (d, pid, hashlib.md5(json.dumps(body['case'], sort_keys=True).encode()).hexdigest()[:10])
    json.dump(body, open(p, 'w'), ensure_ascii=False, indent=1)
    return p

def known(pid):
    """findings that are listed, and still there, are announced"""
    fs = [f for f in json.load(open(V + '/known-findings.json'))['findings'] if f['property'] == pid]
    cs = [dict(c, **{'from': 'finding'}) for f in fs for c in f['cases']]
    if not cs: return
    cases.execute(cs); vs, _ = pv.validate2(cs); i = 0
    for f in fs:
        n = len(f['cases'])
        if any(v['v'] == 'bad' for v in vs[i:i+n]): print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        i += n

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time(); budget = 800 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', 6 * 3600))
    p = plan.PLAN[pid]
    st = collections.Counter(); st = collections.defaultdict(int); st['seen'] = set(); st['samples'] = []
    bad = []; models = []
    with ProcessPoolExecutor(8) as pool:
        list(pool.map(len, ['']))      # fork the generators before any thread exists
        pv.build()
        known(pid)
        import mc
        for m in p['mc']:
            t = time.time(); todo, info = mc.run(m, tier, seed, pool); info['tlc_s'] = round(time.time() - t, 1)
            models.append({k: info[k] for k in info if k != 'samples'})
            st['states'] += info['states']; st['transitions'] += info['transitions']; st['replayed'] += info['replayed']
            st['samples'] += info['samples'][:1]; st['by:model ' + m] += info['behaviours']
            if len(todo) > plan.REJUDGE and info['replayed']: todo = random.Random(seed).sample(todo, plan.REJUDGE)
            if todo: bad += judge_cases(todo, pool, st, pid, p['judge'])
        bad += run_replay(pool, st, pid, tier, seed)
        sched = schedule(pid, tier, seed)
        for i in range(0, len(sched), plan.BATCH):
            if bad or time.time() - t0 > budget: break
            bad += run_cases(sched[i:i+plan.BATCH], pool, st, pid, p['judge'])
    paths = []
    for c, v in sorted(bad, key=lambda x: len(json.dumps(sample(x[0]))))[:5]:
        paths.append(report(pid, c, v['why'], v['exp']))
    cov = {'states': st['states'], 'transitions': st['transitions'], 'traces_validated_against_impl': st['ok'] + st['replayed'],
           'replayed_digests': st['digests'], 'replayed_differing': st['differ'],
           'samples': st['samples'], 'evaluations': st['n'], 'distinct_nontrivial': st['nontrivial'], 'unmodelled': st['skip'],
           'rule': 'non-trivial: accepted by the specification without any compile error (programs), or agreeing in full (other cases); distinct by content',
           'by_generator': {k[3:]: st[k] for k in sorted(st) if k.startswith('by:')}, 'models': models,
           'time_s': {'execution': round(st['exec_s'], 1), 'tlc': round(st['tlc_s'], 1)}}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
          'assumptions': ['the generators and models bound the inputs explored', 'observations are made through the public API and the papyri executable',
                          'characters outside spec/alphabet.json are not exercised']}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), ensure_ascii=False, indent=1)
    print('%s %s: %d decided before and the same, %d cases (%d agree, %d unmodelled), %d states, %d violations, %.0f s' % (pid, tier, st['digests'], st['n'] + st['replayed'], st['ok'] + st['replayed'], st['skip'], st['states'], len(bad), time.time() - t0))
    if bad:
        for (c, v), q in zip(sorted(bad, key=lambda x: len(json.dumps(sample(x[0])))), paths): print('%s  [%s]' % (v['why'], c.get('from', '')))
        print('VIOLATION property=%s replay=%s' % (pid, paths[0]))
        return 1
    return 0
if __name__ == '__main__':
    try: sys.exit(main())
    except pv.ToolError as e:
        print('ERROR: %s' % e); sys.exit(2)
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
