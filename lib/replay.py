"""Replay of behaviours that the specification has already decided.

corpus/replay/KIND.gz holds cases with a digest of the observation that TLC
accepted for them (dev/mkexpect.py).  Executing a case and comparing digests
costs much less than evaluating the specification, so that many more cases can
be replayed; whenever a digest differs, the specification decides again."""
import gzip, hashlib, json, os, select, subprocess, tempfile, shutil, time
import pv, cases
DIR = pv.V + '/corpus/replay'

def path(kind): return '%s/%s.gz' % (DIR, kind)
def load(kind):
    """[(case, digest)]"""
    if not os.path.exists(path(kind)): return []
    out = []
    for l in gzip.open(path(kind), 'rt', encoding='utf-8'):
        c, d = json.loads(l)
        if isinstance(c, list): c = {'op': 'compile', 'src': c[0], 'name': '<string>', 'lvl': c[1], 'laws': True}
        c['from'] = kind + ':replay'
        out.append((c, d))
    return out
def save(kind, cs):
    os.makedirs(DIR, exist_ok=True)
    with gzip.GzipFile(path(kind), 'wb', 9, mtime=0) as f:
        for c, d in cs:
            c = {k: v for k, v in c.items() if k not in ('obs', 'panic', 'cwd', 'from', 'hl', 'dom')}
            if c['op'] == 'compile' and 'hlq' not in c and 'domq' not in c and 'web' not in c: c = [c['src'], c['lvl']]       # the other fields are always the same
            f.write((json.dumps([c, d], ensure_ascii=False, separators=(',', ':')) + '\n').encode())

def digest(o, places):
    o = {k: v for k, v in o.items() if k not in ('id', 'panic')}
    s = json.dumps(o, sort_keys=True, ensure_ascii=False)
    for p in places:
        if p: s = s.replace(p, '\u00a7')
    return hashlib.md5(s.encode()).hexdigest()[:8]

def simple(c): return 'web' not in c and c['op'] in ('compile', 'compile_str', 'uid')
def wire(c):
    if c['op'] == 'compile': return {'op': 'compile', 'id': 0, 'src': c['src'], 'name': c['name'], 'level': c['lvl'], 'text': True}
    return dict(c, id=0)
def run_simple(cs):
    """observations of many simple cases by one process; None where it died or hung"""
    obs = []
    while len(obs) < len(cs):
        f = tempfile.TemporaryFile(dir=pv.BUILD)
        f.write(b''.join(pv.dumps(wire(c)) + b'\n' for c in cs[len(obs):])); f.seek(0)
        p = subprocess.Popen([pv.VEXEC], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=pv.limit_memory)
        buf = b''; fd = p.stdout.fileno()
        while True:
            if not select.select([fd], [], [], 15)[0]: p.kill(); break
            x = os.read(fd, 1 << 20)
            if not x: break
            buf += x
        p.wait(); p.stdout.close(); f.close()
        obs += [pv.loads(l) for l in buf.split(b'\n')[:-1]]
        if len(obs) < len(cs): obs.append(None)
    return obs
def digests(cs):
    """the digest of what the real code does now, for every case (one process of the pool)"""
    out = [''] * len(cs)
    s = [i for i, c in enumerate(cs) if simple(c)]
    bad = 0
    for i, o in zip(s, run_simple([cs[i] for i in s])):
        if o is not None: out[i] = digest(o, ())
    rest = [i for i, c in enumerate(cs) if not simple(c)]
    if rest:
        d = cases.scratch(); w = pv.Worker()
        try:
            for i in rest:
                if bad >= 3: break
                c = dict(cs[i]); o = cases.run_one(w, c, i)
                if o['st'] == 'hang' or any(x.get('st') == 'hang' for x in o.get('steps', [])): bad += 1
                out[i] = digest(o, ('/' + '/'.join(c.get('cwd', [])) if c.get('cwd') else '', d))
        finally:
            w.close(); cases.drop_scratch()
    return out
def run(pool, cs, chunk=250):
    """cs: [(case, digest)]; the cases whose digest differs"""
    parts = [cs[i:i+chunk] for i in range(0, len(cs), chunk)]
    bad = []
    for p, ds in zip(parts, pool.map(digests, [[c for c, _ in p] for p in parts])):
        bad += [c for (c, d), e in zip(p, ds) if d != e]
    return bad
