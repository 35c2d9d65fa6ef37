#!/usr/bin/env python3
"""mutate.py: a campaign of automatic mutants of /repo's source, to find what the
generators do not reach.  The observations of a mutant on a pool of cases are
compared with those of the unchanged code (which conforms to the specification).
  mutate.py pool N           makes the pool: N cases for each kind of generator
  mutate.py run OUT [WORKERS] [REGEX of files]   runs the mutants
"""
import json, os, random, re, shutil, subprocess, sys, threading, time, hashlib
sys.path.insert(0, '/verif/lib')
import pv, gen, cases, plan, check
from concurrent.futures import ProcessPoolExecutor
W = '/tmp/mut'; POOL = W + '/pool'
LV = ('Warning', 'All', 'Warning', 'Error', 'Warning', 'IgnoreAll')
def kinds():
    ps, os_ = set(), set()
    for p in plan.PLAN.values(): ps |= set(p['progs']); os_ |= set(p['ops'])
    return sorted(ps), sorted(os_ - {'cli', 'net', 'wr'})
def job(c, d):
    """the request for the harness"""
    if c['op'] == 'ctx':
        c['cwd'] = cases.comps(d); cases.materialise(c, d)
        x = {'op': 'ctx', 'id': 0, 'level': c['lvl'], 'cwd': d, 'steps': [dict(s, text=True) for s in c['steps']]}
        if c['hasout']: x['outdir'] = c['outdir']
        return x
    if c['op'] in ('fn', 'outfiles'): return dict(c, id=0, cwd='/tmp/mut', cwd_=0)
    if c['op'] == 'html': return {'op': 'html', 'id': 0, 'h': cases.raw(c['h'])}
    if c['op'] in ('compile', 'strict'): return {'op': 'compile', 'id': 0, 'src': c['src'], 'name': c['name'], 'level': c['lvl'], 'text': True}
    return dict(c, id=0)
def pool(n):
    shutil.rmtree(POOL, ignore_errors=True); os.makedirs(POOL)
    ps, os_ = kinds(); ok = json.load(open(pv.V + '/corpus/ok.json')); r = random.Random(7)
    with ProcessPoolExecutor(8) as ex:
        for k in ps + os_:
            if k in ps:
                ss = r.sample(ok.get(k, []), min(n * 6 // 10, len(ok.get(k, []))))
                ss += [r.randrange(10**6, 10**9) for _ in range(n - len(ss))]
                sch = [('prog', k, s, LV[s % 6]) for s in ss]
            else: sch = [('op', k, r.randrange(10**6, 10**9), '') for _ in range(n)]
            cs = list(ex.map(check.make, sch, chunksize=64))
            with open('%s/%s' % (POOL, k), 'w') as f:
                for i, c in enumerate(cs): f.write(json.dumps(job(c, '%s/fs/%s%d' % (W, k, i))) + '\n')
def strip(line):
    o = json.loads(line)
    def f(x):
        if isinstance(x, dict): return {k: f(v) for k, v in x.items() if k not in ('msg', 'panic')}
        return [f(v) for v in x] if isinstance(x, list) else x
    return f(o)
def run_kind(exe, k, want, tlimit=60):
    """-> None if the same, else (index, observation)"""
    p = subprocess.Popen([exe], stdin=open('%s/%s' % (POOL, k)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    t = threading.Timer(tlimit, p.kill); t.start()
    got = []
    try:
        for i, w in enumerate(want if want is not None else range(10**9)):
            l = p.stdout.readline()
            if want is None:
                if not l: break
                got.append(l); continue
            if l != w and (not l or strip(l) != strip(w)): return (i, l.decode()[:2000])
    finally:
        t.cancel(); p.kill(); p.wait()
    return got if want is None else None

# ---------------------------------------------------------------------------
OPS = [(r'(?<![=!<>+\-*/|&])==(?!=)', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+= 1\b', ' += 2'), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\.rev\(\)', ''), (r'!(?=[a-z_]+[.(])', ''),
       (r'\bif (?!let|true|false)([^{};]+) \{', r'if true || \1 {'), (r'\bif (?!let|true|false)([^{};]+) \{', r'if false && \1 {'),
       (r'\.\.=', '..'), (r'\.is_empty\(\)', '.len() == 1'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bOk\(true\)', 'Ok(false)'),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
       (r'\bBefore\b', 'After'), (r'\bSome\(([a-z_.]+)\) if [^=]+ =>', r'Some(\1) =>'), (r' if [^=]+ =>', ' =>'), (r'\.trim_end\(\)', ''), (r'\.trim\(\)', ''),
       (r'\.position\(', '.rposition('), (r'\.skip\(1\)', ''), (r'\.next\(\)', '.last()'), (r'\.find\(', '.rfind('), (r'\.start\b', '.end'), (r'\.end\b', '.start'),
       (r'^(\s*)(?!let|return|use|pub|mod|type|const|static|break|continue|\}|\)|//)([^{}=]*[^=!<>]=?[^=]*;)\s*$', r'\1;'),   # a statement gone
       (r'^(\s*)(?!let|return|use|pub|mod|type|const|static|\}|\)|//)([a-z_.]+\([^{}]*\)\??;)\s*$', r'\1;'),
       (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r"'(.)'", "'\u00a7'"), (r'"([^"{}\\]+)"', '"\u00a7"'),
       (r'^(\s*)(?!_)([A-Z][\w:]*(?:\([^()]*\)|\{[^{}]*\})?(?: \| [A-Z][\w:()]*)*) => (.*),\s*$', r'\1\2 if false => \3,'),
       (r'\b([A-Z]\w+)::([A-Z]\w+) \| ([A-Z]\w+)::([A-Z]\w+)', r'\1::\2'), (r'\?;', ';'), (r'\.or\(', '.and('), (r'\.unwrap_or\(([^()]*)\)', r'.unwrap_or_default()')]
STD = [(r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'_([a-z])', r'\1'), (r'\?', ''), (r'= \.', ''), (r'\bblock\b', 'inline'), (r'\binline\b', 'html'), (r'\bint\b', 'str'), (r'\bstr\b', 'any'), (r'\bany\b', 'str'), (r'list', 'any'), (r'implicit ', '')]
def mutants(rx='.'):
    out = []; r = random.Random(11)
    for d, _, fs in sorted(os.walk('/tmp/mut/src0/src')):
        for f in sorted(fs):
            p = os.path.join(d, f); rp = os.path.relpath(p, '/tmp/mut/src0')
            if not f.endswith(('.rs', '.papyri')) or not re.search(rx, rp) or 'bin/' in rp or rp in ('src/errors/syntax_error.rs', 'src/errors/type_error.rs', 'src/errors/runtime_error.rs', 'src/errors/warning.rs', 'src/errors/module_error.rs', 'src/utils/const_strs.rs'): continue
            ls = open(p).read().split('\n'); test = False
            for i, l in enumerate(ls):
                if 'cfg(test)' in l: test = True
                if test or l.strip().startswith(('//', '#[', 'use ')): continue
                code = l.split(' //')[0]
                for a, b in (STD if f.endswith('.papyri') else OPS):
                    for m in re.finditer(a, code):
                        n = code[:m.start()] + m.expand(b) + code[m.end():]
                        if n != code and n.strip() != l.strip(): out.append({'f': rp, 'l': i + 1, 'old': l, 'new': n})
    seen = {}
    for m in out: seen[(m['f'], m['l'], m['new'])] = m
    out = list(seen.values()); r.shuffle(out)
    return out
def prep(i):
    d = '%s/w%d' % (W, i)
    if not os.path.isdir(d):
        os.makedirs(d)
        for x in ('src', 'Cargo.toml', 'Cargo.lock', 'tests'):
            s = '/tmp/mut/src0/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, '%s/repo/%s' % (d, x)) if os.path.isdir(d + '/repo') or os.makedirs(d + '/repo') is None else None
        shutil.copytree('/verif/harness', d + '/harness', ignore=shutil.ignore_patterns('target'))
        t = open(d + '/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "%s/repo"' % d)
        open(d + '/harness/Cargo.toml', 'w').write(t)
    else:
        shutil.rmtree(d + '/repo/src'); shutil.copytree('/tmp/mut/src0/src', d + '/repo/src')
        shutil.copy('/verif/harness/src/main.rs', d + '/harness/src/main.rs'); shutil.copy('/verif/harness/Cargo.lock', d + '/harness/Cargo.lock'); t = open('/verif/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "%s/repo"' % d); open(d + '/harness/Cargo.toml', 'w').write(t)
    return d
def build(d):
    e = dict(pv.ENV, CARGO_TARGET_DIR=d + '/target', CARGO_INCREMENTAL='1', CARGO_BUILD_JOBS='2')
    return subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d + '/harness', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
def tests(d):
    e = dict(pv.ENV, CARGO_TARGET_DIR=d + '/target', CARGO_INCREMENTAL='1', CARGO_BUILD_JOBS='2')
    try: r = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=d + '/repo', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired: return False
    return r.returncode == 0
def main_run(outf, n=6, rx='.', limit=10**9, stop=True):
    ms = mutants(rx)[:limit]; done = set()
    if os.path.exists(outf):
        for l in open(outf): m = json.loads(l); done.add((m['f'], m['l'], m['new']))
    ms = [m for m in ms if (m['f'], m['l'], m['new']) not in done]
    print(len(ms), 'mutants', flush=True)
    ks = sorted(os.listdir(POOL)); d0 = prep(0); r = build(d0)
    if r.returncode: print(r.stdout); return
    for i in range(1, n):
        d = '%s/w%d' % (W, i)
        if not os.path.isdir(d): prep(i); shutil.copytree(d0 + '/target', d + '/target', symlinks=True)
        else: prep(i)
        r = build(d); assert r.returncode == 0, r.stdout
    exe = d0 + '/target/debug/vexec'; shutil.copy(exe, W + '/base'); base = {}
    def b(k): base[k] = run_kind(W + '/base', k, None, 600)
    ts = [threading.Thread(target=b, args=(k,)) for k in ks]
    t = time.time(); [x.start() for x in ts]; [x.join() for x in ts]
    print('base', {k: len(v) for k, v in base.items()}, round(time.time() - t), flush=True)
    lock = threading.Lock(); it = iter(ms); cnt = {'n': 0}
    def work(i):
        d = '%s/w%d' % (W, i); rnd = random.Random(i)
        while True:
            with lock: m = next(it, None)
            if m is None: return
            p = d + '/repo/' + m['f']; src = open(p).read(); ls = src.split('\n'); ls[m['l'] - 1] = m['new']
            res = dict(m)
            try:
                open(p, 'w').write('\n'.join(ls))
                try: r = build(d)
                except subprocess.TimeoutExpired: r = None
                if r is None or r.returncode: res['st'] = 'nobuild'
                else:
                    kb = []; order = ks[:]; rnd.shuffle(order)
                    for k in order:
                        x = run_kind(d + '/target/debug/vexec', k, base[k])
                        if x is not None:
                            kb.append(k); res.setdefault('first', [k, x[0]])
                            if stop: break
                    res['st'] = 'killed' if kb else 'survived'; res['by'] = kb
                    if not kb: res['tests'] = tests(d)
            finally: open(p, 'w').write(src)
            with lock:
                cnt['n'] += 1; cnt[res['st']] = cnt.get(res['st'], 0) + 1
                open(outf, 'a').write(json.dumps(res) + '\n')
                if cnt['n'] % 20 == 0: print(cnt, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [x.start() for x in ts]; [x.join() for x in ts]
    print(cnt)
if __name__ == '__main__':
    if sys.argv[1] == 'pool': pool(int(sys.argv[2]))
    elif sys.argv[1] == 'count':
        ms = mutants(); print(len(ms)); import collections; print(collections.Counter(m['f'] for m in ms))
    else: main_run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 6, sys.argv[4] if len(sys.argv) > 4 else '.')
