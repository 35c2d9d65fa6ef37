"""Models enumerated by TLC: every behaviour of a model, within its bounds, is
printed with what the specification prescribes, and replayed in the real code."""
import json, os, tempfile
import pv, cases, gen, models
CFG = {'MCProg': ['Laws'], 'MCUid': ['Unique', 'Valid', 'Derived', 'Emit'], 'MCOut': ['Contained', 'InOrder', 'Emit'],
       'MCHtml': ['Normal', 'Associative', 'Identity', 'Lossless', 'Emit'], 'MCCtx': ['Quiet', 'StackEmpty', 'OutKept', 'OutInside', 'Silent', 'Laws', 'Emit'],
       'MCCli': ['Status', 'Emit']}
PROPS = {'MCCtx': ['Once', 'Asks'], 'MCCli': ['SourcesKept', 'OnlyOutputs']}

def explore(module, model, timeout=3000):
    """what TLC prints, and its counts"""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', dir=pv.BUILD, delete=False); json.dump(model, f, ensure_ascii=False); f.close()
    g = f.name + '.cfg'
    with open(g, 'w') as h:
        h.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in CFG[module]) + ''.join('PROPERTY %s\n' % i for i in PROPS.get(module, [])))
    try:
        rc, out = pv.tlc(module, g, env={'PAPYRI_MODEL': f.name, 'PAPYRI_STDLOC': pv.stdloc()}, timeout=timeout)
    finally:
        os.remove(f.name); os.remove(g)
    if rc != 0: raise pv.ToolError('the model %s does not have its properties:\n%s' % (module, '\n'.join(l[:2000] for l in out.splitlines() if not l.startswith(('"{', 'Semantic', 'Parsing', 'Linting')))[-3500:]))
    return list(pv.lines_json(out)), pv.counts(out)

def source(slots, ch):
    return ''.join(slots[i][k-1][0] for i, k in enumerate(ch)) + ''.join(slots[i][k-1][1] for i, k in reversed(list(enumerate(ch))))
def locs(d): return [(l.get('file'), l.get('line'), l.get('col'), l.get('in')) for l in d['locs']]
def same(v, o, std):
    e = v['e']
    if o['st'] != 'ok' or not o['nf'] or (o['errs'], o['warns'], o['sum'], len(o['diags'])) != (e['errs'], e['warns'], e['sum'], len(e['diags'])): return False
    for a, b in zip(e['diags'], o['diags']):
        if (a['k'], a['w'], a['tb']) != (b['k'], b['w'], b['tb']) or locs(a) != [l for l in locs(b) if std or l[0] != '<stdlib>']: return False
    return e['errs'] > 0 or (o['out'], o['txt'], o['empty'], o['block']) == (v['out'], v['txt'], v['empty'], v['block'])

def run(name, tier, seed, pool=None):
    """(cases for TLC to decide, info): those whose outcome is not the one printed, or all of those of the histories"""
    m = models.get(name, tier)
    if 'domq' in m['model']:      # facts about HTML source
        w = pv.Worker(); m['model'] = dict(m['model'], dom=w.run({'op': 'dom', 'id': 0, 'q': m['model']['domq']})['dom']); w.close()
        if m['module'] == 'MCProg': m['model']['docs'] = {f['src']: f for f in m['model'].pop('dom')}
    if name == 'hl': m['model'] = dict(m['model'], codes=models.codes(m['model']['slots'], pv, cases))
    vs, n = explore(m['module'], m['model'])
    info = {'model': name, 'module': m['module'], 'states': n[1], 'transitions': n[0], 'behaviours': 0, 'replayed': 0, 'samples': []}
    base = {'from': 'model:' + name}
    cs = []
    if m['module'] == 'MCProg':
        slots = m['model']['slots']; seen = {}
        for v in vs:
            src = source(slots, v['ch'])
            if not v['deep'] and gen.clean(src) == src: seen.setdefault(src, v)
        cs = [dict(base, op='compile', src=s, name='<string>', lvl='All', laws='docs' not in m['model']) for s in seen]
        if 'docs' in m['model']:
            for c in cs: c['domq'] = [models.documents([[]] + [[slots[i+1][k-1]] for i, k in enumerate(seen[c['src']]['ch'][1:])])[0]]
        if name == 'hl':
            for c in cs: c['hl'] = m['model']['codes'][c['src']]
        import replay
        parts = [cs[i:i+250] for i in range(0, len(cs), 250)]
        obs = [o for p in pool.map(replay.run_simple, parts) for o in p]
        std = pv.stdloc() == '1'
        info['behaviours'] = len(cs)
        info['samples'] = [c['src'] for c in cs[len(cs)//2:len(cs)//2+1]]
        differ = [c for c, o in zip(cs, obs) if o is None or not same(seen[c['src']], o, std)]
        info['replayed'] = len(cs) - len(differ)
        return differ, info
    for v in vs:
        if m['module'] == 'MCUid': cs.append(dict(base, op='uid', calls=[{k: h[k] for k in ('base', 'max', 'clear')} for h in v['hist']]))
        elif m['module'] == 'MCOut': cs.append(dict(base, op='outfiles', base=v['base'], cwd=[], calls=v['hist'] + [{'take': True, 'path': '', 'v': ''}]))
        elif m['module'] == 'MCHtml': cs.append(dict(base, op='html', h=v['t']))
        elif m['module'] == 'MCCtx':
            if v['deep']: continue
            mm = m['model']
            if 'links' in mm: base = dict(base, links=mm['links'])
            web = {'web': v['web'], 'http': v['http'], 'domq': mm['domq']} if 'webs' in mm else {}
            cs.append(dict(base, **web, op='ctx', names=mm['names'], texts=v['texts'], dirs=mm['dirs'], cwd=[], hasout=mm['hasout'], outdir=mm['outdir'], lvl='All',
                           steps=[mm['steps'][i-1] for i in v['hist']] + [{'op': 'take'}] * mm['hasout']))
        else:
            mm = m['model']
            cs.append(dict(base, op='cli', names=mm['names'], texts=v['texts'], dirs=mm['dirs'], cwd=[], steps=[st if st['op'] != 'run' else {'op': 'run', 'a': st['a']} for st in (mm['steps'][i-1] for i in v['hist'])]))
    info['behaviours'] = len(cs)
    return cs, info
