"""Shared machinery: build, run the real code, validate against the TLA+
specification with TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = V + '/build'
SPEC = V + '/spec'
ENV = dict(os.environ, CARGO_TARGET_DIR=BUILD + '/target', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='0',
           CARGO_INCREMENTAL='0', RUSTFLAGS='-A warnings -A dependency_on_unit_never_type_fallback', CARGO_NET_OFFLINE='true')
VEXEC = BUILD + '/target/debug/vexec'
CLI = BUILD + '/target/debug/papyri'

# The specification's strings have no characters beyond U+FFFF (TLC's are UTF-16): private-use characters stand for some of them,
# with the facts of the characters they stand for, and are exchanged on the way to the code under test and back.
STAND = {0xE000 + i: c for i, c in enumerate('\U0001F600\U0001D49C\U00010400\U00010428\U00020000\U0001F3F3\U0001D7D8\U0001F44D\U0001F3FD\U000E0001\U00010348')}
BACK = {ord(c): chr(k) for k, c in STAND.items()}
def real(s): return s.translate(STAND)
def stood(s): return s.translate(BACK)
def dumps(x): return real(json.dumps(x, ensure_ascii=False)).encode()
def loads(b): return json.loads(stood(json.dumps(json.loads(b), ensure_ascii=False)))

class ToolError(Exception): pass

def repo_hash():
    h = hashlib.sha256()
    for root in [REPO + '/src', V + '/harness']:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != 'target')
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    for f in ['Cargo.toml', 'Cargo.lock']:
        h.update(open(REPO + '/' + f, 'rb').read())
    return h.hexdigest()

def build():
    os.makedirs(BUILD, exist_ok=True)
    stamp = BUILD + '/stamp'
    want = repo_hash()
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(VEXEC) and os.path.exists(CLI):
        return
    if os.path.exists(stamp): os.remove(stamp)
    log = open(BUILD + '/build.log', 'w')
    def run(cmd):
        r = subprocess.run(cmd, env=ENV, stdout=log, stderr=subprocess.STDOUT, cwd=V + '/harness')
        log.flush()
        return r.returncode
    # mtimes are not to be trusted across copies: rebuild the crate whenever its contents changed
    if os.path.exists(BUILD + '/target'):
        run(['cargo', 'clean', '--offline', '-p', 'papyri-lang'])
    if run(['cargo', 'build', '--offline', '--locked']) != 0:
        raise ToolError('harness build failed: see ' + BUILD + '/build.log\n' + open(BUILD + '/build.log').read()[-3000:])
    if run(['cargo', 'build', '--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml', '--bin', 'papyri']) != 0:
        raise ToolError('CLI build failed: see ' + BUILD + '/build.log\n' + open(BUILD + '/build.log').read()[-3000:])
    open(stamp, 'w').write(want)

def stdloc():
    """'1' if the standard library's text is the specified one, so that positions inside it can be compared"""
    return '1' if open(REPO + '/src/std.papyri', encoding='utf-8').read() == json.load(open(SPEC + '/stdlib.json'))[0] else '0'

def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
class Worker:
    """One harness process; a case that kills it or hangs is an observation."""
    def __init__(self): self.p = None; self.env = None; self.web = None
    def start(self):
        self.p = subprocess.Popen([VEXEC], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.cwd if hasattr(self, 'cwd') else None, preexec_fn=limit_memory, env=self.env)
    def run(self, case, timeout=10, again=False):
        if self.p is None or self.p.poll() is not None: self.start()
        killed = []
        def kill():
            killed.append(1); self.p.kill()
        t = threading.Timer(timeout, kill); t.start()
        try:
            try:
                self.p.stdin.write(dumps(case) + b'\n'); self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = b''
        finally:
            t.cancel()
        if not line:
            self.p.wait(); self.p = None
            if killed and not again: return self.run(case, 20, True)     # a hang has to happen twice
            return {'st': 'hang' if killed else 'abort'}
        return loads(line)
    def close(self):
        if self.p and self.p.poll() is None:
            self.p.stdin.close(); self.p.wait()
        if self.web: self.web.close(); self.web = self.env = None

def execute(cases, n=8):
    """cases: list of dicts for vexec. Returns the observations, in order."""
    obs = [None] * len(cases)
    it = iter(range(len(cases))); lock = threading.Lock()
    errs = []
    def work():
        w = Worker()
        try:
            while True:
                with lock:
                    i = next(it, None)
                if i is None: break
                obs[i] = w.run(cases[i])
        except Exception as e:
            errs.append(e)
        finally:
            w.close()
    ts = [threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise ToolError('harness: %r' % errs[0])
    return obs

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
def tlc(module, cfg, env=None, args=(), timeout=800, workers=8, heap='12g', spec=None):
    meta = tempfile.mkdtemp(prefix='tlcmeta', dir=BUILD)
    e = dict(os.environ, PAPYRI_SPEC=SPEC)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss512m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
           '-workers', str(workers), '-config', cfg] + list(args) + [spec or (SPEC + '/' + module + '.tla')]
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode('utf-8', 'replace')

def lines_json(out):
    for l in out.split('\n'):
        if l.startswith('"{'):
            try: yield json.loads(json.loads(l))
            except ValueError:
                try: yield json.loads(tla_unquote(l.rstrip('\r')))
                except ValueError:
                    m = re.search(r'\\"id\\":(\d+)', l)
                    if m: yield {'id': int(m.group(1)), 'v': 'bad' if '\\"v\\":\\"bad' in l else 'skip', 'why': 'differs', 'exp': l}
def tla_unquote(l):
    s, i, o = l[1:-1], 0, []
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            o.append({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(s[i+1], s[i+1])); i += 2
        else: o.append(s[i]); i += 1
    return ''.join(o)

def validate(cases): return validate2(cases)[0]
def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
def validate2(cases, timeout=800, module='Conf'):
    """cases: list of dicts with 'obs'. Returns the verdicts, in order, and TLC's counts."""
    if not cases: return [], (0, 0)
    f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', dir=BUILD, delete=False)
    for c in cases: f.write(json.dumps(c, ensure_ascii=False) + '\n')
    f.close()
    rc, out = tlc(module, SPEC + '/' + module + '.cfg', env={'PAPYRI_CASES': f.name, 'PAPYRI_STDLOC': stdloc()}, timeout=timeout)
    vs = {}
    for v in lines_json(out): vs[v['id']] = v
    if len(vs) != len(cases):
        miss = [i for i in range(1, len(cases)+1) if i not in vs][:5]
        raise ToolError('TLC gave %d verdicts for %d cases (missing %r, case file %s):\n%s' %
                        (len(vs), len(cases), miss, f.name, '\n'.join(l for l in out.splitlines() if l.strip() and not l.startswith(('"{', 'Semantic processing', 'Parsing file', 'Linting'))  and ' to line ' not in l)[-3500:]))
    os.remove(f.name)
    return [vs[i] for i in range(1, len(cases)+1)], counts(out)
