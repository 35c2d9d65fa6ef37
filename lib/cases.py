"""Cases for the specification's other interfaces: helpers, identifiers,
output files, contexts with modules, and the command-line compiler."""
import json, os, random, re, shutil, subprocess, tempfile, threading
import gen, pv
from gen import G, clean

TEXTS = ['foo', 'Foo', 'foo bar', 'foo_1', 'foo_2', 'foo_bar', 'FOO BAR!', '1x', 'é', 'café', '老虎', '\ue000', 'x\ue002\ue003', '\ue005 \ue00a', 'a\ue009', ' ', '', '_', 'a', '-', 'ß', 'a-b_c',
         'foobarbaz', 'foobarqux', 'id', 'id_1', 'id_2', 'x', 'fo', 'f', 'foo_9', 'foo_10', '_1', '__', 'A_B', 'f_o', 'Éa', 'a b c d e']
def text(g, k=0.5):
    return g.ch(TEXTS) if g.p(k) else clean(g.rawstr(0.3) or '')
def c_uid(g):
    if g.p(0.25):       # long runs of the same names
        base = g.ch([['foo'], ['a'], ['foo', 'fo'], ['x', 'x_1'], ['ab', 'a'], ['foo_9', 'foo'], ['é'], [''], ['foobar'], ['foobar'], ['abc def ghi'], ['x y'], ['foobar', 'foob']]); mx = [g.ch([0, 1, 2, 3, 3, 4, 5, 5, 6, 7, 128]) for _ in range(g.ch([1, 1, 2]))]
        return {'op': 'uid', 'calls': [{'base': g.ch(base), 'max': g.ch(mx), 'clear': False} for _ in range(g.ch([12, 12, 25, 110, 104]))]}
    base = [text(g, 0.8) for _ in range(g.n(1, 3))]
    mx = [g.ch([0, 1, 2, 3, 4, 5, 6, 8, 128]) for _ in range(2)]
    calls = [{'base': g.ch(base), 'max': g.ch(mx), 'clear': False} if g.p(0.93) else {'clear': True, 'base': '', 'max': 0} for _ in range(g.n(2, 30))]
    return {'op': 'uid', 'calls': calls}
IND = ['', '  ', '    ', '\t', ' \t', '\u00a0', '\u2003']
def c_fn(g):
    f = g.ch(['make_identifier', 'make_identifier', 'is_identifier', 'is_whitespace', 'looks_like_glob', 'encode_entities', 'encode_entities',
              'fix_indentation', 'fix_indentation', 'fix_indentation', 'lang_hint', 'make_relative', 'make_relative', 'make_relative'])
    c = {'op': 'fn', 'f': f, 's': '', 'n': 0, 'q': False, 'd': '', 'base': '', 'cwd': []}
    if f == 'make_relative':
        c['base'], c['s'] = path(g), path(g)
    elif f == 'fix_indentation':
        c['s'] = clean(g.ch(['\n', '\n', '\r\n']).join(g.ch(IND) + g.ch(IND + ['']*3) + g.ch(['', '', 'x', 'é y', 'foo ', '{', ' ']) for _ in range(g.n(0, 5))) + g.ch(['', '\n', ' \n', '  ']))
    elif f == 'lang_hint':
        c['s'] = clean(g.ch(['', 'papyri', 'c', ' c', 'c ', 'c\r', 'c++', 'é', 'a b']) + g.ch(['\n', '', '\n\n', ' \n']) + g.ch(['', 'x', 'x\ny', 'é'])); c['d'] = g.ch(['none', 'x'])
    else:
        c['s'], c['n'], c['q'] = text(g), g.n(0, 9), g.p(0.5)
        if f == 'encode_entities': c['s'] = clean(''.join(g.ch(['<', '>', '&', '"', "'", 'x', 'é', ' ', '&lt;', '-']) for _ in range(g.n(0, 6))))
        if f == 'is_whitespace': c['s'] = clean(''.join(g.ch([' ', '\n', '\t', '\r', '\u00a0', 'x']) for _ in range(g.n(0, 4))))
    return c
def path(g, absolute=True):
    n = g.n(0, 5)
    p = '/'.join(g.ch(['a', 'b', 'ab', '..', '..', '.', 'c.html', '', 'a..b', '...']) for _ in range(n))
    return ('/' if absolute and g.p(0.15) else './' if g.p(0.1) else '') + p
def c_outfiles(g):
    c = {'op': 'outfiles', 'base': path(g), 'cwd': [], 'calls': []}
    for i in range(g.n(1, 6)):
        if g.p(0.2): c['calls'].append({'take': True, 'path': '', 'v': ''})
        else: c['calls'].append({'take': False, 'path': g.ch([path(g), path(g), c['base'] + '/x', '/' + c['base'] + '/../x']), 'v': 'v%d' % i})
    return c
def c_html(g):
    def t(d):
        if d == 0 or g.p(0.5): return {'leaf': True, 's': g.ch(['', '', ' ', '\n', 'x', 'foo', '\t', ' y', 'é', '\u00a0']), 'ch': []}
        return {'leaf': False, 's': '', 'ch': [t(d - 1) for _ in range(g.n(0, 4))]}
    return {'op': 'html', 'h': t(3)}
def raw(t): return t['s'] if t['leaf'] else [raw(x) for x in t['ch']]

# ---------------------------------------------------------------------------
# file trees
FILES = ['a.papyri', 'b.papyri', 'c.papyri', 'sub/d.papyri', 'sub/e.papyri', 'x.lib.papyri', 't.txt', 'sub/u.txt', 'F.PAPYRI', 'sub/deep/g.papyri', 'a.b.papyri', 'sub/a.papyri']
def rel(g, frm, to):
    """a path from the file frm to the file to, written in some way"""
    fd, td = frm.split('/')[:-1], to.split('/')[:-1]
    k = 0
    while k < min(len(fd), len(td)) and fd[k] == td[k]: k += 1
    cs = ['..'] * (len(fd) - k) + td[k:] + [to.split('/')[-1]]
    p = '/'.join(cs)
    if g.p(0.1): p = './' + p
    if g.p(0.1) and td: p = p.replace('/', '//', 1)
    if g.p(0.05) and len(td[k:]) > 0: p = p.replace(td[-1] + '/', td[-1] + '/../' + td[-1] + '/', 1)
    if g.p(0.1) and p.startswith('./') is False: p = p.replace('/', '/./', 1)
    return p
def q(p): return '`%s`' % p if p else "''"
def module(g, me, files, wr=True, depth=0):
    def target():
        if g.p(0.12): return q(g.ch(['nosuch', 'k', 'k', 'l', 'lk/d', 'lk/l', 'lk/../a', 'a', 'sub', '', 'sub/nosuch', '/nosuch/x', 'b.papyri/x', me]))
        t = g.ch(files)
        p = rel(g, me, t)
        if p.endswith('.papyri') and g.p(0.8): p = p[:-7]
        return q(p)
    L = []
    nv = [0]
    def v(): nv[0] += 1; return 'm%d' % nv[0]
    def line():
        k = g.n(0, 22)
        if k <= 3: return '@import %s' % target() if g.p(0.2) else '@let(%s=@import %s)...' % ((lambda x: (x, target()))(v()))
        if k <= 5: return '@include %s' % target()
        if k == 6:
            x = v(); return '@let(%s=@import %s) {%s}' % (x, target(), g.ch(['$%s' % x, '$%s::k' % x, '@%s::f 5' % x, '@dict::keys $%s' % x, '$%s::nosuch' % x]))
        if k == 7: return '@export @let(k=%s)...' % g.ch(['1', '2', '`%s`' % me.replace('/', '-').replace('.', '-'), '[1, 2]', '<b>x</b>'])
        if k == 8: return '@export @fn f $y -> {%s($y)}' % g.ch(['f', 'g', '$k', '$here'])
        if k == 9: return '@export @let(%s=%s)...' % (g.ch(['k', 'z', 'here']), g.ch(['7', 'foo', '@str::unique_id foo']))
        if k == 10: return '@file::read %s' % q(rel(g, me, g.ch(files + ['nosuch.txt', 't.txt'])))
        if k == 11: return '@file::list %s' % q(g.ch(['.', 'sub', './sub', 'sub/', 'nosuch', 'sub/deep', 'lk', 'lk/']) if '/' not in me else g.ch(['.', '..', 'deep', './', 'nosuch', '../sub']))
        if k == 12 and wr: return '@file::write(%s) %s' % (q(g.ch(['o1.html', 'o2.html', 'sub/o3.html', '../o4.html', 'sub/../o5.html', '/o6.html', './o7.txt', 'sub/../../o8', '', '..', 'x/y/z.html', 'é.html'])), g.ch(['{x}', '<p>y</p>', '.', '{a &amp; b}']))
        if k == 13: return '@str::unique_id %s' % g.ch(['foo', '`bar baz`'])
        if k == 14: return g.ch(['$nosuch', '$k', '$z', '@f 3', '$here', '@nosuch 1', '<b>x', '@raise `oops`', '@let(k=1)...', '@export @let(k=3)...'])
        if k == 15: return '@let(here=%s)...' % g.ch(['1', 'loc'])
        if k == 16: return '@match @import %s {(k=$kk, **_) -> {got $kk}, _ -> none}' % target()
        if k == 17: return '@let(%s=1)...' % g.ch(['k', 'z'])
        if k == 18: return '@(@import %s)::f 2' % target() if g.p(0.0) else '{@fn h -> @include %s\n @h.}' % target()
        if k == 19: return '@list::map(@fn $n -> @include $n) [%s, %s]' % (target(), target())
        return g.ch(['Hello', 'Text in ' + me.replace('/', ' '), '<p>x</p>', '', 'é', 'a\n\nb'])
    for _ in range(g.n(0, 5) if g.p(0.9) else 0): L.append(line())
    if wr and g.p(0.12): k = g.n(0, len(L)); L[k:k] = ['@file::write(`f%d.html`) {%d}' % (i, i) for i in range(g.n(0, 1))] + g.ch([['@include %s'], ['@import %s'], ['@include %s', '@include %s']])[:] + ['@file::write(`f9.html`) {late}']
    if wr: L = [x % (g.ch([target(), q('bad'), q('bad')]),) if x in ('@include %s', '@import %s') else x for x in L]
    return clean('\n\n'.join(L) + g.ch(['', '\n']))
def tree(g, wr=True):
    fs = g.r.sample(FILES, g.n(1, 5))
    return fs, {f: (module(g, f, fs, wr) if f.lower().endswith('.papyri') else g.ch(['text', 'a<b\n', '', 'é\n'])) for f in fs}
def dirs_of(fs, extra=()):
    ds = {()}
    for f in fs:
        cs = f.split('/')[:-1]
        for i in range(len(cs)): ds.add(tuple(cs[:i+1]))
    for d in extra: ds.add(tuple(d.split('/')))
    return [list(d) for d in sorted(ds)]
def c_ctx(g, wr=True):
    fs, files = tree(g, wr)
    extra = ['empty'] if g.p(0.2) else []
    c = {'op': 'ctx', 'names': [f.split('/') for f in fs], 'texts': [files[f] for f in fs], 'dirs': dirs_of(fs, extra), 'cwd': [],
         'hasout': g.p(0.6), 'outdir': g.ch(['out', './out', 'out/', '.', 'sub/../out', 'out/x', '/outside/o', 'é', '']), 'lvl': g.ch(['All', 'Warning', 'Warning', 'Error', 'IgnoreAll']), 'steps': []}
    if c['outdir'] == '': c['outdir'] = 'out'
    if not c['hasout']: c['outdir'] = ''
    srcs = [f for f in fs if f.lower().endswith('.papyri')] or ['a.papyri']
    for i in range(g.n(1, 5)):
        k = g.n(0, 9)
        if k <= 2: c['steps'].append({'op': 'synth', 'name': '<s%d>' % i, 'src': module(g, '<s>', fs, wr)})
        elif k <= 5: c['steps'].append({'op': 'load', 'path': g.ch(['', '', './']) + (g.ch(srcs) if g.p(0.93) else 'nosuch.papyri')})
        elif k == 6: c['steps'].append({'op': 'cached', 'path': g.ch(['', './', 'sub/../' if ['sub'] in c['dirs'] else '']) + (g.ch(srcs) if g.p(0.9) else 'nosuch.papyri')})
        elif k == 7: c['steps'].append({'op': 'take'})
        else:
            if c['hasout']: c['steps'].append({'op': 'take'})   # a reset with files not yet taken is outside the contract
            c['steps'].append({'op': 'reset'})
    if c['hasout'] and g.p(0.7): c['steps'].append({'op': 'take'})
    return odd_dirs(g, c)
def c_hist(g):
    """programs compiled one after another in one context, without files"""
    c = {'op': 'ctx', 'names': [], 'texts': [], 'dirs': [[]], 'cwd': [], 'hasout': False, 'outdir': '', 'lvl': 'Warning', 'steps': []}
    ps = ['scope', 'call', 'match', 'content', 'mutant', 'uid', 'seeds2', 'str', 'list', 'soup']
    same = gen.PROFILES[g.ch(ps)](g)
    for i in range(g.n(2, 4)):
        c['steps'].append({'op': 'synth', 'name': '<s%d>' % i, 'src': clean(same if g.p(0.4) else gen.PROFILES[g.ch(ps)](g))})
        if g.p(0.5): c['steps'].append({'op': 'reset'})
    return c
def c_cstr(g):
    return {'op': 'compile_str', 'src': clean(gen.PROFILES[g.ch(['content', 'mutant', 'soup', 'tree', 'seeds2', 'match', 'uid', 'mixed'])](g))}

def odd_files(g, c):
    """files that are not UTF-8, and links"""
    if g.p(0.12) and c['texts']:
        i = g.n(0, len(c['texts']) - 1); t = c['texts'][i]; k = g.n(0, len(t)); c['texts'][i] = t[:k] + BADUTF + t[k:]
    if c['op'] == 'cli':
        for s in c['steps']:
            if s['op'] == 'run' and s['a']['hasin'] and g.p(0.1): s['a']['stdin'] += BADUTF
        return c
    if g.p(0.25) and c['names']:
        c['links'] = []
        for n in g.r.sample([['l.papyri'], ['a.papyri'], ['b.papyri'], ['sub', 'l.papyri'], ['lk'], ['t.txt'], ['sub', 'd.papyri']], g.n(1, 3)):
            if n in c['names'] or n in c['dirs'] or n[:-1] not in c['dirs']: continue
            dirs = [x for x in c['dirs'] if x]
            if n[-1] == 'lk' and not dirs: continue
            t = g.ch(dirs if n[-1] == 'lk' else c['names'])
            c['links'].append({'at': n, 'to': g.ch(['', '', './']) + '../' * (len(n) - 1) + '/'.join(t)})
        for l in c['links']:        # sources that go through them
            for i, n in enumerate(c['names']):
                if n[-1].endswith('.papyri') and g.p(0.5):
                    p = '../' * (len(n) - 1) + '/'.join(l['at'])
                    p = p[:-7] if p.endswith('.papyri') else p + g.ch(['/d', '/e', '/l', '/../a', '/../b'])
                    c['texts'][i] += g.ch(['\n\n', '\n']) + g.ch(['@include `%s`', '@let(z=@import `%s`)...', '@match @import `%s` {_: dict -> ok}', '@file::read `%s`', '@let(z=@import `%s`) {@dict::keys $z}']) % p
    return c
def odd_dirs(g, c):
    """directories named like sources"""
    odd_files(g, c)
    if c['op'] == 'ctx':
        for d in ([], ['sub']):
            if d in c['dirs'] and d + ['bad.papyri'] not in c['names'] and any('`bad`' in t for t in c['texts'] + [x.get('src', '') for x in c['steps']]) and g.p(0.85):
                c['names'].append(d + ['bad.papyri']); c['texts'].append(g.ch([BADUTF, 'x' + BADUTF, '$nosuch', '@include `bad`', '@file::write(`b.html`) {b}\n\n@include `nosuch`']))
    if not g.p(0.25): return c
    d = g.ch([['k.papyri'], ['k.papyri'], ['k.papyri'], ['k.PAPYRI'], ['k.lib.papyri']])
    c['dirs'].append(d)
    if g.p(0.5): c['names'].append(d + ['m.papyri']); c['texts'].append('m')
    return c

OUTS = ['out', './out', 'out/', 'out/x', '.', 'sub', 'o ut', 'sub/../out2', 'out']
def options(g, files, o):
    a = {'u': g.p(0.45), 's': g.p(0.15), 'iw': g.p(0.2), 'txt': g.p(0.15), 'hasout': o is not None, 'out': o or '', 'paths': [], 'stdin': '', 'hasin': False}
    if g.p(0.07):
        a['hasin'] = True; a['u'] = False
        if g.p(0.75): a['hasout'] = False; a['out'] = ''
        a['stdin'] = module(g, '<s>', files, False)
        if g.p(0.05): a['paths'] = [g.ch(files)]
        return a
    k = g.n(0, 9)
    if k <= 4: a['paths'] = []
    elif k <= 6: a['paths'] = [g.ch(['', './', '']) + g.ch(files) for _ in range(g.n(1, 3))]
    elif k == 7: a['paths'] = [g.ch(['.', 'sub', './sub', 'sub/', './'])]
    elif k == 8: a['paths'] = [g.ch(['*.papyri', 'sub/*', '*', '?.papyri', '*/*.papyri', 'a*.papyri'])]
    else: a['paths'] = [g.ch(['nosuch.papyri', 'nosuch', 'nosuch.txt', 't.txt', '../z.papyri', 'sub/nosuch.papyri', '.papyri']), g.ch(files)]
    return a
def plain(g, me, fs):
    """mostly sources that compile"""
    return clean(g.ch(['Hello %s' % me.replace('/', ' '), '', '<p>x</p>\n', 'a\n\nb', '@export @let(k=1)...', '# nothing', '@let(k=1, k=2)...x', 'é &amp; <b>y</b>', '$nosuch', '<hr>', '```\nx\n```',
                       '@str::unique_id foo', '@file::write(`w.html`) {W %s}' % me.replace('/', ' ').replace('.', ' '), '@file::write(`../w.html`) {W}', '@file::write(`sub/w2.html`) <p>x</p>\n\nfoo', '@str::unique_id foo', '$nosuch %s' % me.replace('/', ' ').replace('.', ' '), '@include ' + q(rel(g, me, g.ch(fs)))]))
NEAR = ['sub/d.papyri', 'sub-x/d.papyri', 'sub.d/d.papyri', 'sub!/d.papyri', 'sub.papyri', 'sub-.papyri', 'sub/deep/g.papyri', 'sub/deep-er.papyri', 'sub/deep.papyri', 'suba/a.papyri', 'Sub/d.papyri', 'é/d.papyri', 'su.papyri']
def c_cli(g):
    near = g.p(0.12)
    fs = g.r.sample(NEAR, g.n(2, 5)) if near else g.r.sample(FILES, g.n(1, 5))
    src = lambda f: (module(g, f, fs) if g.p(0.4) else plain(g, f, fs)) if f.lower().endswith('.papyri') else g.ch(['text', 'a<b\n'])
    c = {'op': 'cli', 'names': [f.split('/') for f in fs], 'texts': [src(f) for f in fs], 'dirs': dirs_of(fs), 'cwd': [], 'steps': []}
    o = g.ch([None, None] + OUTS)
    for i in range(g.n(1, 5)):
        if i > 0 and g.p(0.6):
            k = g.n(0, 5); f = g.ch(fs)
            if k <= 2: c['steps'].append({'op': 'write', 'path': f, 'text': src(f)})
            elif k <= 4:
                outf = re.sub(r'\.papyri$', '.html', f, flags=re.I)
                c['steps'].append({'op': 'touch', 'path': g.ch([f, ('' if o is None else os.path.normpath(o) + '/') + outf]).removeprefix('./'), 'time': g.n(1, i + 2)})
            else: c['steps'].append({'op': 'rm', 'path': f})
        a = options(g, fs, o if g.p(0.9) else g.ch([None] + OUTS))
        if near and not a['hasin'] and g.p(0.6): a['paths'] = g.ch([[], ['.'], ['*'], fs, fs[::-1], ['sub*'], ['*/*.papyri']])
        if a['hasout'] and not a['hasin'] and a['out'].startswith('sub/..') and ['sub'] not in c['dirs']: a['out'] = 'out2'
        c['steps'].append({'op': 'run', 'a': a})
    return odd_dirs(g, c)

# -- code in other languages
SNIPS = {
 'rust': ['fn f(x: u8) -> bool { true }', 'let mut v: Vec<i32> = vec![1, 2.5e3, 0xff];', '// see https://x.y/z', '/* a', 'b */ x', '"str https://q.r \\n"', "'c'", '#[derive(Debug)]', 'pub(crate) struct S<\'a> { t: &\'a str }', 'impl T for S {', '}', 'match x { Some(_) => 1..=2, None => !0 }', 'self.x += 1;', 'return a && b || c as u8;', 'r#"raw"#', 'b"x"', ')', 'where T: Copy', 'macro_rules! m {}', 'unsafe { *p }', 'loop { break; }', 'type A = B;'],
 'python': ['def f(x: int = 1, *a, **k) -> str:', '    return not x and True or None', '@deco(1)', 'class A(B):', "    '''doc https://d.e'''", '# c http://a.b', 'x = [1, 2.0, 0x1f, 1j]', 'lambda x: x in y is z', '"s %d" % 5', 'f"a{b}c"', 'import os as o', 'self.x', ')', ']', 'print(x)', 'raise E from e', "r'\\d'", 'yield', 'async def g(): await h', 'global x', '"unclosed', '$', 'a @ b', 'x: List[int]', 'x <> y', '    pass', '1abc', 'exec "x"'],
 'js': ['function f(a, b) { return this.x === null; }', "const x = 't ${y} u'", '// c https://j.s/', '/* m', '*/', 'let r = /a[b]c/g;', 'new Foo(1, "s", \'t\')', 'x => ({a: [1, 2]})', 'typeof x', 'class A extends B {}', 'if (!a) { b++ } else c--', '}', 'undefined, NaN, true', 'var é = 1;', '0b11 + 1e5', 'x instanceof Y', 'delete a.b', 'async () => await z'],
 'html': ['<p class="a">x &amp; y</p>', '<!-- c https://h.t -->', '<br/>', '<script>var x = 1;</script>', '<a href="https://x.y">t</a>', '<!DOCTYPE html>', '<style>a { b: c }</style>', '<p', 'x="y">', '</div>', '&lt;'],
 'css': ['a:hover { color: #fff; margin: 0 1px }', '/* c https://c.s */', '.k > #i, b[x="y"] {', '}', '@media (min-width: 10em) {', 'content: "\\201c";', 'width: calc(1px + 2%);', 'background: url(https://u.v/w)', '!important'],
 'json': ['{"a": [1, 2.5, true, null], "b": "https://x.y"}', '[', ']', '}', '"x": "y\\n"', 'bad', '// c', '{"a" 1}', '{', '"a": 1,', ',', '[1 2]'],
 'c': ['#include <stdio.h>', 'int main(int c, char **v) { return 0; }', '// c https://x.y', '/* u', '*/', 'static const char *s = "a%d\\n";', 'struct a { int b[3]; };', '#define X(y) (y + 1)', 'sizeof(x)', 'typedef unsigned long u;', "'x'", 'x->y.z', '}', '0x1fL', '#ifdef A', '#endif', 'NULL', 'if (a) goto b;', '#if 0', 'f(a[1]);'],
 'java': ['@Override', 'public static void main(String[] a) {', 'int x = 0x1L; // https://j.k', '}', '@A(x = "y", z = 1)', 'class A<T extends B> implements C {', 'return this.x instanceof D ? null : super.f();', '/** doc @param x */', 'new int[]{1, 2};', 'throw new E("m");', 'import a.b.*;', "'c'", 'List<@N String> l;', 'true', '@interface I {}', 'a -> b'],
 'sql': ["SELECT * FROM t WHERE a = 'x' AND b IS NOT NULL;", '-- c https://s.q', 'insert into t values (1, 2)', '/* m */', 'create table t (a int primary key)', 'COUNT(*)', '"q"'],
 'bash': ['for i in a b; do echo "$i" $(ls); done', '# c https://b.sh', 'if [ -f x ]; then', 'fi', "x='y'", 'cat <<E', 'E', '$((1 + 2))', 'f() { local a=1; }', '[[ $a == b ]]', '| grep', '${x:-y}', '}'],
 'ruby': ['def f(a, *b)', 'end', '@x ||= :sym', '# c https://r.b', '"a#{b}c"', 'class A < B', '%w(a b)', 'nil && true', 'x.each { |y| puts y }', '/re/i', 'require "x"', 'self', 'A::B.new'],
 'markdown': ['# H', '*em* **st** _u_', '- x', '> q', '[l](https://m.d)', '1. a', '---', '<https://x.y>', '    code', '![i](u "t")'],
 'xml': ['<?xml version="1.0"?>', '<a b="c">d</a>', '<!-- https://x.m -->', '<![CDATA[x]]>', '&amp;', '<x:y/>', '</z>'],
 'yaml': ['a: b', '- 1', '# https://y.m', 'k: "v"', 'x: [1, true, ~]', '&a *b', 'm: |', '  t', '---'],
 'go': ['package main', 'func f(a int) (b string, err error) {', '// https://g.o', 'x := []int{1, 2}', '}', 'if err != nil { return nil }', 'go f()', 'var m map[string]int', 'type T struct{}', "'r'", '"s"', '<-c'],
 'haskell': ['f :: Int -> Maybe a', 'f x = x + 1 -- https://h.s', 'data T = A | B deriving (Show)', '{- c -}', 'where', 'let y = [1..2]', '"s"', 'import X (y)', "'c'"],
 'php': ['<?php echo $x; ?>', '<?php function f(int $a): string { return "b $c"; } // https://p.h', '?>', '<b>', 'class', '<?= 1 ?>'],
 'diff': ['--- a', '+++ b', '@@ -1 +1 @@', '-x', '+y', ' z https://d.f'], 'tex': ['\\begin{a}', '$x^2$', '% https://t.x', '{b}'], 'lua': ['local x = {1, "a"}', '-- https://l.u', 'function f() return nil end', 'if x ~= 1 then end'],
}
ALIAS = {'rust': ['rs', 'Rust'], 'python': ['py', 'Python'], 'js': ['javascript', 'JavaScript'], 'html': ['htm', 'HTML'], 'c': ['C', 'h'], 'ruby': ['rb'], 'bash': ['sh'], 'markdown': ['md'], 'haskell': ['hs'], 'yaml': ['yml'], 'tex': ['latex'], 'css': ['CSS'], 'json': ['JSON']}
def fix_indent(s):
    ls = [x.removesuffix('\r') for x in s.rstrip().split('\n')] if s.rstrip() else []
    out, ind = '', None
    for l in ls:
        if ind is not None: out += (l[len(ind):] if l.startswith(ind) else l.lstrip()) + '\n'
        elif l.strip():
            n = len(l) - len(l.lstrip())
            if n == 0: return s.strip()
            ind = l[:n]; out += l[n:] + '\n'
    return out
def c_hl(g):
    out, q = [], []
    def ask(l, t): q.append([l, fix_indent(t)])
    if g.p(0.15):
        d = g.ch(list(SNIPS)); out.append('@implicit(language=`%s`)...\n' % d)
    else: d = None
    for _ in range(g.n(1, 2)):
        base = g.ch(list(SNIPS)) if g.p(0.8) or not d else d
        l = g.ch(ALIAS.get(base, []) + [base, base, base])
        if g.p(0.04): l = g.ch(['nosuchlang', 'x y', 'RUST', 'pY', ' rust', 't', 'asp', 'Plain Text', 'sql', 'd', 'r', 'plain'])
        def line():
            k = g.n(0, 11)
            if k < 6: x = g.ch(SNIPS[base])
            elif k < 9: x = g.ch([' ', ' ', '']).join(g.ch(SNIPS[base]) for _ in range(2))
            elif k == 9: x = ''
            elif k == 10: x = g.ch(SNIPS[g.ch(list(SNIPS))])
            else: x = g.ch(['(', ')', '[', ']', '{', '}', '((', '])', '() {}', '{[(', ')]}', '1', 'x', '"', ';', ': int', 'https://bare.url', ' '])
            return clean(x).replace('`', "'")
        ind = g.ch(['', '', '', '  ', '    ', '\t'])
        body = g.ch(['\n', '\n', '\n', '\r\n']).join(ind + g.ch(['', '', '', ' ', '    ']) + line() + g.ch(['', '', '', ' ']) for _ in range(g.n(1, 6)))
        one = line().strip() or 'x'
        L = ', first_line_no=%s' % g.ch(['0', '5', '-2', '99', '9223372036854775807']) if g.p(0.2) else ''
        k = g.n(0, 7)
        if k == 0: out.append('@code(language=`%s`) `%s`' % (l, one)); ask(l, one)
        elif k <= 3: out.append('```%s\n%s\n```' % (l, body)); ask(l, body); ask(l, '\n' + body)
        elif k == 4: out.append('@code(language=`%s`, code_block=True%s) ```%s```' % (l, L, body)); ask(l, body); ask(l, body.split('\n', 1)[-1]); ask(body.split('\n', 1)[0].rstrip(), body.split('\n', 1)[-1])
        elif k == 5: out.append('@code(language=`%s`, code_block=%s%s) ```\n%s```' % (l, g.ch(['True', 'False']), L, body)); ask(l, '\n' + body); ask(l, body)
        elif k == 6: out.append('@code_block(language=`%s`%s) ```\n%s\n```' % (l, L, body)); ask(l, '\n' + body)
        else: out.append('`%s` and ```\n%s\n```' % (one, body)); ask(d or l, one); ask(d or l, '\n' + body)
        out.append(g.ch(['\n\n', '\n', ' ']))
    return {'op': 'compile', 'src': ''.join(out), 'name': '<string>', 'lvl': g.ch(['Warning', 'Warning', 'All']), 'laws': True, 'hlq': [x for i, x in enumerate(q) if x not in q[:i]]}

# -- HTML source
def html_text(g):
    def t(d):
        if d == 0 or g.p(0.35): return g.ch(['foo', 'x y', ' ', '\n', '&amp;', '&lt;b&gt;', '&nbsp;', 'é', '"q"', '&#65;', '&eacute;', 'a & b', "it's", '5', '', '<!-- c -->', '<!--[if IE]>b<![endif]-->', '<!--x-->', '<!-- <b>q</b> -->', '  z', 'z  ', ' \n ', '\n\n', '\tx', 'X Y', '&amp;lt;', '&#160;', '&quot;', '-->', '$x', '@f', '{}', '\\n', 'a<!-- c -->b', '1 > 0', '-- ...'])
        n = g.ch(['p', 'b', 'i', 'div', 'ul', 'li', 'a', 'span', 'table', 'tr', 'td', 'h1', 'br', 'img', 'hr', 'pre', 'blockquote', 'script', 'style', 'template', 'svg', 'section', 'x-y', 'title', 'textarea', 'code', 'B', 'DIV', 'option', 'select', 'tbody', 'caption', 'my_tag', 'button', 'form', 'input', 'iframe', 'math', 'noscript', 'video'] if g.p(0.6) else ['p', 'b', 'i', 'div', 'ul', 'li', 'a', 'span', 'br', 'section'])
        at = ''.join(' ' + g.ch(['id="a"', "class='x y'", 'href=u', 'title="&quot;<>"', 'checked', 'DATA-X="1"', 'a="1" a="2"', 'onclick="f(\'x\')"', 'viewBox="0 0"', 'x:y="z"', 'alt=""', 'é="1"', 'data_k=v', 'style="a: b"', 'title=" a  b "', 'class=" x"', 'alt="y\n"', 'title="A&nbsp;"', 'ID=A', 'hidden=""', 'a="&amp;lt;"', 'value="\t"', 'b=" "', 'Lang="En-GB"', 'href="?a=1&b=2"', 'CHECKED', 'data-a_b="-_"', 'title="&quot;x&quot;"', "title='\"'", 'aria-label="x-y"']) for _ in range(g.ch([0, 0, 0, 1, 1, 2])))
        if n.lower() in ('br', 'img', 'hr', 'input'): return '<%s%s%s>' % (n, at, g.ch(['', '', '/', ' /']))
        if n == 'script': return '<script%s>%s</script>' % (at, g.ch(['var x = 1 < 2;', '', '"</b>"', '<!-- x -->']))
        if n in ('table', 'ul', 'select') and g.p(0.8): return '<%s%s>%s</%s>' % (n, at, {'table': '<tr><td>%s</td><td>2</td></tr>' % t(0), 'ul': '<li>%s</li><li>%s</li>' % (t(0), t(d - 1)), 'select': '<option>a</option><option value="b">c'}[n], n)
        return '<%s%s>%s%s' % (n, at, ''.join(t(d - 1) for _ in range(g.n(0, 3))), '</%s>' % n if g.p(0.97) else '')
    b = ''.join(t(g.n(1, 3)) for _ in range(g.n(0, 4)))
    k = g.n(0, 9)
    s = '<!DOCTYPE html>' + (b if k <= 3 else '\n<html%s>%s<body%s>%s</body></html>' % (g.ch(['', ' lang="en"']), g.ch(['', '<head></head>', '<head><title>T &amp; t</title></head>', '<head><meta charset="utf-8"><link rel="x" href="y"></head>\n', '<head><style>a > b {}</style><script>1 < 2 && 3</script></head>']), g.ch(['', ' class="k"']), b) if k <= 7 else '<html><head></head><body>%s</body></html>\n<!-- end -->' % b)
    if g.p(0.05): s = g.ch([b, s.replace('<!DOCTYPE html>', '<!doctype HTML>'), '<!DOCTYPE x>' + b, '<?xml ?>' + s, s + '</p>', s + '<', s.replace('</', '< /'), '<!-- a -->' + s, '', ' ' + s, s + '</body>x'])
    return clean(s).replace('`', "'").replace('\x00', '')
WALK = '''@fn one $x -> @match $x {<$t **$a>$c</> -> {($t @show $a @walk $c)}, _: str -> {S@show $x}, _ -> {E}}
@fn walk $x -> @match $x {. -> {}, {$h *$t} -> {@one $h @walk $t}, _ -> {O}}
'''
def c_dom(g):
    out, q = [gen.PRELUDE, WALK], []
    def src():
        t = html_text(g); q.append(t)
        return '```%s```' % t if t and t[-1] != '`' else "''"
    for _ in range(g.n(1, 2)):
        e = '@html::parse ' + src()
        k = g.n(0, 9)
        if k == 0: e = '@show ' + e
        elif k == 1: e = '@let(d=%s) {@show $d @typeof $d @walk $d}' % e
        elif k == 2: e = '@match %s {<html **$a>{$h $b}</html> -> {m @show $a|@show $h|@show $b}, {$x *_} -> {s @show $x}, _ -> none}' % e
        elif k == 3: e = '@match %s {<html **$a>{<head>$h</head> <body **$c>{*$b}</body>}</html> -> {<div **$c>$b</div>}, _ -> none}' % e
        elif k == 4: e = '@match %s {<html>{<head>_</head> <body **_>{*$b}</body>}</html> -> {@walk $b}, _ -> {none}}' % e
        elif k == 5: e = '@str::len @html::escape_html ' + e
        elif k == 6: e = '@match %s {<$t **$a>_</> -> {$t @show $a}, $h -> {@typeof $h}}' % e
        elif k == 7: e = '<div>%s</div>' % e
        elif k == 8: e = '@html::parse ' + '"<!DOCTYPE html>$x"' if g.p(0.2) else '@let(x=%s) {$x $x}' % e
        out.append(e + g.ch(['\n', '\n\n', ' ']))
    return {'op': 'compile', 'src': clean(''.join(out)), 'name': '<string>', 'lvl': g.ch(['Warning', 'Warning', 'All']), 'laws': False, 'domq': [x for i, x in enumerate(q) if x not in q[:i]]}

def c_wr(g):
    """files written by modules that load each other, some of which fail"""
    fs = g.r.sample(['a.papyri', 'b.papyri', 'c.papyri', 'sub/d.papyri', 'sub/e.papyri', 'sub/deep/g.papyri'], g.n(1, 4)); num = [0]
    od = g.ch(['out', 'out', './out', 'out/', '.', 'sub/../out', 'out/x', '/outside/o', '..', 'out/../sub', '\u00e9'])
    near = od.rstrip('/').split('/')[-1]
    def w():
        num[0] += 1; n = 'f%d.html' % num[0]
        p = g.pick((4, lambda: n), (1, lambda: 'sub/' + n), (1, lambda: g.ch(['sub/../', './', 'x/./y/', 'x//', 'a/b/../../', 'a/../b/../'])+ n), (1, lambda: g.ch(['../', '/', 'sub/../../', '../out/', 'a/../../out/', '../sub/', '/out/', '..x/', '.../', 'x/../..' , '..', '../%s2/' % near, '../%ser/' % near, '../%s/' % near[:-1], 'x/../../%s_/y/' % near]) + n), (0.3, lambda: g.ch(['', '.', '..', 'sub/..', './', '/', 'x/', 'f1.html'])))
        return '@file::write(%s) %s' % (q(p), g.ch(['{x%d}' % num[0], '<p>y</p>', '.', '{a &amp; <b>b</b>}', '[1, 2]', '{p\n\nq}', '5', 'foo']))
    def target(me):
        if g.p(0.2): return q(g.ch(['nosuch', 'k', 'k', 'k', 'l', 'lk/d', 'lk/../b', 'a', 'sub', 'sub/nosuch', '../nosuch', me.split('/')[-1][:-7]]))
        t = rel(g, me, g.ch(fs)); return q(t[:-7] if g.p(0.8) else t)
    def mod(me):
        L = []
        for _ in range(g.ch([0, 1, 2, 2, 3, 4])):
            L.append(g.pick((4, w), (1.5, lambda: g.ch(['@include %s', '@let(m%d=@import %%s)...' % len(L), '@match @import %s {_: dict -> ok}', '{@fn h -> @include %s\n @h.}', '@list::map(@fn $n -> @include $n) [%s]']) % target(me)), (0.6, lambda: g.ch(['$nosuch', '@raise `oops`', '<b>x', '@let(k=1', '@str::len 5 6'])), (0.7, lambda: 'text'),
                (0.7, lambda: '@fn w%d -> %s\n@w%d.' % (len(L), w(), len(L))), (0.4, lambda: '@export @fn ww -> ' + w()), (0.4, lambda: '@let(m=@import %s) {@m::ww.}' % target(me)), (0.3, lambda: '@list::map(@fn $x -> {%s}) [1, 2]' % w()), (0.2, lambda: '@match 5 {_ -> %s}' % w())))
        return clean('\n\n'.join(L) + g.ch(['', '\n']))
    on = g.p(0.9)
    c = {'op': 'ctx', 'names': [f.split('/') for f in fs], 'texts': [mod(f) for f in fs], 'dirs': dirs_of(fs), 'cwd': [], 'hasout': on, 'outdir': od if on else '', 'lvl': g.ch(['All', 'Warning', 'Warning', 'Error']), 'steps': []}
    for i in range(g.n(1, 6)):
        k = g.n(0, 9)
        if k <= 3: c['steps'].append({'op': 'synth', 'name': '<s%d>' % i, 'src': mod('<s>')})
        elif k <= 5: c['steps'].append({'op': 'load', 'path': g.ch(fs) if g.p(0.9) else 'nosuch.papyri'})
        elif k == 6: c['steps'].append({'op': 'cached', 'path': g.ch(fs) if g.p(0.9) else 'nosuch.papyri'})
        elif k <= 8: c['steps'].append({'op': 'take'})
        else: c['steps'] += [{'op': 'take'}, {'op': 'reset'}]
    c['steps'].append({'op': 'take'})
    return odd_dirs(g, c)

# -- the network
URLS = ['http://web.test/a', 'http://web.test/b.html', 'http://web.test/sub/c?x=1&y=2', 'http://other.test:8080/', 'http://web.test/', 'http://web.test/d', 'http://web.test/A']
NOURLS = ['nonsense', '/a', 'a.html', 'ftp://web.test/a', 'file:///etc/hostname', 'data:text/plain,x', 'web.test/a', '//web.test/a', "''", 'http:', 'mailto:a@web.test', 'ws://web.test/a']
def net_pages(g):
    web, u = [], g.r.sample(sorted(set(URLS)), g.n(1, 5))
    for x in u:
        k = g.pick((5, lambda: 'page'), (1.2, lambda: 'redir'), (0.7, lambda: 'err'), (0.6, lambda: 'drop'))
        b = g.ch(URLS[:7] + ['http://web.test/lost']) if k == 'redir' else g.ch([html_text(g), html_text(g), 'plain text', '', ' a\n b ', '{"k": 1}', 'é < & > \ue000', '<b>x</b>', '@raise `x`', '$x', '5', '\r\nx\r\n', '<!DOCTYPE html><p>q</p>', '# c'])
        web.append({'url': x, 'k': k, 'body': b})
    if any(loops(web, p['url']) for p in web): return net_pages(g)
    return web
def loops(web, u, n=0):
    p = {p['url']: p for p in web}.get(u)
    return n > 4 or (p is not None and p['k'] == 'redir' and loops(web, p['body'], n + 1))
def net_url(g, web):
    u = g.pick((6, lambda: g.ch(web)['url']), (0.6, lambda: g.ch(URLS)), (0.6, lambda: g.ch(NOURLS)))
    return u if u == "''" else '`%s`' % u
def net_expr(g, web):
    u = net_url(g, web)
    return g.pick((4, lambda: '@net::fetch_raw ' + u), (3, lambda: '@net::fetch_html ' + u), (0.7, lambda: '@str::len @net::fetch_raw ' + u), (0.5, lambda: '@typeof @net::fetch_html ' + u),
      (0.7, lambda: '@let(x=@net::fetch_raw %s) {$x $x}' % u), (0.5, lambda: '@list::map($net::fetch_raw) [%s, %s]' % (u, net_url(g, web))), (0.4, lambda: '@fn get $u -> @net::fetch_raw $u\n@get ' + u),
      (0.4, lambda: '<pre>@net::fetch_raw %s</pre>' % u), (0.4, lambda: '@html::parse @net::fetch_raw ' + u), (0.3, lambda: '@code(language=papyri) @net::fetch_raw ' + u), (0.3, lambda: '@str::unique_id @net::fetch_raw ' + u),
      (0.4, lambda: '@match %s {5 -> {@net::fetch_raw %s}, _ -> no}' % (g.ch(['5', '6']), u)), (0.3, lambda: '@match @net::fetch_raw %s {`plain text` -> {P}, $x -> {@str::len $x}}' % u), (0.3, lambda: '@fn never . -> @net::fetch_raw ' + u),
      (0.3, lambda: '@net::%s %s' % (g.ch(['fetch_raw', 'fetch_html']), g.ch(['5', '.', '[]', '<b>x</b>', '{a b}', '$nosuch']))), (0.3, lambda: '@net::fetch_raw(%s) .' % u), (0.3, lambda: '@let(h=@net::fetch_html %s) <div>$h</div>' % u), (0.3, lambda: '@file::read ' + u), (0.3, lambda: '@import ' + u), (0.3, lambda: '@let(base=`http://web.test/`) @net::fetch_raw "%s"' % g.ch(['${base}a', '${base}d', '$base'])))
def c_net(g):
    web = net_pages(g)
    def src(me, fs):
        L = [gen.PRELUDE] if g.p(0.2) else []
        for _ in range(g.n(1, 3)): L.append(net_expr(g, web) if g.p(0.85) or not fs else '@include ' + q(g.ch(fs)))
        if g.p(0.3): L.append(g.ch(['@export @let(k=@net::fetch_raw %s)...' % net_url(g, web), 'text', '$nosuch']))
        return clean(g.ch(['\n\n', '\n', ' ']).join(L))
    k, http = g.n(0, 9), g.p(0.75)
    e = {'web': web, 'http': http, 'domq': sorted({p['body'] for p in web if p['k'] != 'redir'} | {'missing', ''})}
    if k <= 5: return dict(e, op='compile', src=src('', []), name='<string>', lvl=g.ch(['Warning', 'All']), laws=False)
    fs = g.r.sample(['a.papyri', 'b.papyri', 'c.papyri'], g.n(1, 3))
    e.update(names=[[f] for f in fs], texts=[src(f, fs) for f in fs], dirs=[[]], cwd=[])
    if k <= 7:
        steps = []
        for i in range(g.n(1, 4)): steps += g.ch([[{'op': 'synth', 'name': '<s%d>' % i, 'src': src('', fs)}], [{'op': 'load', 'path': g.ch(fs)}], [{'op': 'cached', 'path': g.ch(fs)}], [{'op': 'reset'}]])
        return dict(e, op='ctx', hasout=False, outdir='', lvl='All', steps=steps)
    runs = []
    for i in range(g.n(1, 3)):
        a = {'u': False, 's': False, 'iw': False, 'txt': g.p(0.3), 'hasout': g.p(0.4), 'out': '', 'paths': g.ch([[], [], [g.ch(fs)]]), 'stdin': '', 'hasin': False, 'http': g.p(0.7)}
        if a['hasout']: a['out'] = 'out'
        elif g.p(0.3): a.update(hasin=True, paths=[], stdin=src('', fs))
        runs.append({'op': 'run', 'a': a})
    return dict(e, op='cli', steps=runs)

MAKERS = {'net': c_net, 'wr': c_wr, 'dom': c_dom, 'hl': c_hl, 'uid': c_uid, 'fn': c_fn, 'outfiles': c_outfiles, 'html': c_html, 'ctx': c_ctx, 'hist': c_hist, 'cstr': c_cstr, 'cli': c_cli}
def case(kind, seed): return MAKERS[kind](G('%s:%s' % (kind, seed)))

# ---------------------------------------------------------------------------
# execution
class Web:
    """a proxy on the loopback interface that answers as the case says, and keeps what is asked of it"""
    def __init__(self):
        import http.server
        me = self; self.pages, self.hits = {}, []
        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(h):
                u = h.path if h.command == 'GET' else h.command + ' ' + h.path
                me.hits.append(u)
                k, body = me.pages.get(u, ('nf', 'missing'))
                if k == 'drop': h.close_connection = True; h.connection.close(); return
                x = pv.real(body).encode()
                try:
                    h.send_response({'page': 200, 'redir': 302, 'nf': 404, 'err': 500}[k])
                    if k == 'redir': h.send_header('Location', body); x = b''
                    h.send_header('Content-Type', 'text/html; charset=utf-8'); h.send_header('Content-Length', str(len(x))); h.end_headers()
                    h.wfile.write(x)
                except OSError: pass
            do_POST = do_HEAD = do_PUT = do_DELETE = do_CONNECT = do_OPTIONS = do_GET
            def log_message(h, *a): pass
        class T(http.server.ThreadingHTTPServer):
            daemon_threads = True
            def handle_error(h, *a): pass
        self.srv = T(('127.0.0.1', 0), H)
        threading.Thread(target=self.srv.serve_forever, kwargs={'poll_interval': 0.05}, daemon=True).start()
        self.env = {k: v for k, v in os.environ.items() if 'proxy' not in k.lower() and k != 'REQUEST_METHOD'}
        self.env['http_proxy'] = 'http://127.0.0.1:%d' % self.srv.server_address[1]
    def serve(self, c): self.pages = {p['url']: (p['k'], p['body']) for p in reversed(c['web'])}; self.hits = []
    def close(self): self.srv.shutdown(); self.srv.server_close()
SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None: SCRATCH = tempfile.mkdtemp(prefix='pvfs', dir=pv.BUILD)
    return SCRATCH
def drop_scratch():
    global SCRATCH
    if SCRATCH: shutil.rmtree(SCRATCH, ignore_errors=True); SCRATCH = None
BADUTF = '\ue0ff'       # stands for a byte that is not UTF-8, in files
def to_bytes(t): return pv.real(t).encode().replace(BADUTF.encode(), b'\xff')
def from_bytes(b): return pv.stood(b.decode('utf-8', 'surrogateescape').replace('\udcff', BADUTF))
def materialise(c, d):
    os.makedirs(d)
    for x in c['dirs']: os.makedirs(os.path.join(d, *x), exist_ok=True)
    for n, t in zip(c['names'], c['texts']):
        with open(os.path.join(d, *n), 'wb') as f: f.write(to_bytes(t))
    for l in c.get('links', []): os.symlink(l['to'], os.path.join(d, *l['at']))
def comps(p): return [x for x in p.split('/') if x]
KEYLINE = re.compile(r'^(?:(?P<full>.* \((?:failed|OK), .*\)|\d+ files? written; .*|Error: --.*|    File ".*", line \d+, col \d+.*|failed, \d+ errors?, \d+ warnings?|OK, \d+ warnings?|File "[^"]*" is not a Papyri source file)|(?P<pre>Error loading "[^"]*"|No sensible output path for "[^"]*"|Failed to create directory "[^"]*"|Failed to create file "[^"]*"|Failed to write file "[^"]*"|File error|Pattern error|Input error|thread .* panicked|ICE).*)$', re.S)
def run_cli(c, d, w=None):
    materialise(c, d)
    base = 1000000000
    now, mt = 1, {}
    def put(p, t): mt[p] = t; os.utime(os.path.join(d, p), (base + t, base + t))
    for n in c['names']: put('/'.join(n), 1)
    obs = []
    for st in c['steps']:
        now += 1
        r = {'st': 'ok'}
        p = os.path.normpath(os.path.join(d, st['path'])) if 'path' in st else None
        if p: assert p.startswith(d + '/')
        key = os.path.relpath(p, d) if p else None
        if st['op'] == 'write':
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f: f.write(to_bytes(st['text']))
            put(key, now)
        elif st['op'] == 'touch':
            if os.path.isfile(p): put(key, st['time'])
        elif st['op'] == 'rm':
            if os.path.isfile(p): os.remove(p); mt.pop(key, None)
        else:
            a = st['a']
            if w and w.web: w.web.hits = []
            args = [pv.CLI] + ['--allow-http'] * a.get('http', False) + ['-u'] * a['u'] + ['-s'] * a['s'] + ['--ignore-warnings'] * a['iw'] + ['-t'] * a['txt'] + ['-i'] * a['hasin'] + (['-o', a['out']] if a['hasout'] else []) + a['paths']
            try:
                q_ = subprocess.run(args, cwd=d, input=to_bytes(a['stdin']), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=10, env=w.env if w else None)
                out, err = pv.stood(q_.stdout.decode('utf-8', 'replace')), pv.stood(q_.stderr.decode('utf-8', 'replace'))
                r['code'] = q_.returncode
                if q_.returncode < 0: r['st'] = 'abort'
                r['text'] = out if a['hasin'] else ''
                r['out'] = [] if a['hasin'] else out.split('\n')[:-1] if out.endswith('\n') else out.split('\n') if out else []
                r['err'] = []
                for l in err.split('\n'):
                    m = KEYLINE.match(l)
                    if m: r['err'].append(m.group('full') or m.group('pre'))
            except subprocess.TimeoutExpired:
                r['st'] = 'hang'; r.update(code=0, text='', out=[], err=[])
            if 'web' in c: r['hits'] = w.web.hits
            tree = []
            for x, _, fs in os.walk(d):
                for f in fs:
                    fp = os.path.join(x, f); k = os.path.relpath(fp, d)
                    if os.stat(fp).st_mtime != base + mt.get(k, -1): put(k, now)
                    tree.append([k, from_bytes(open(fp, 'rb').read()), mt[k]])
            r['tree'] = sorted(tree)
        obs.append(r)
    return {'st': 'ok', 'steps': obs}
def run_one(w, c, i):
    if 'web' not in c: return run_one_(w, c, i)
    if not w.web:
        w.close(); w.web = Web(); w.p = None; w.env = w.web.env
    w.web.serve(c)
    o = run_one_(w, c, i)
    if c['op'] != 'cli': o['hits'] = w.web.hits
    return o
def run_one_(w, c, i):
    if 'hlq' in c and 'hl' not in c:      # facts about other languages, and about HTML source, which the code under test has no part in
        c['hl'] = w.run({'op': 'hl', 'id': 0, 'q': c['hlq']})['hl']
    if 'domq' in c and 'dom' not in c: c['dom'] = w.run({'op': 'dom', 'id': 0, 'q': c['domq']})['dom']
    d = os.path.join(scratch(), 'c%d' % i)
    if c['op'] in ('ctx', 'cli'):
        c['cwd'] = comps(d)
        try:
            if c['op'] == 'cli': return run_cli(c, d, w)
            materialise(c, d)
            x = {'op': 'ctx', 'id': 0, 'level': c['lvl'], 'cwd': d, 'steps': [dict(s, text=True) for s in c['steps']], 'http': c.get('http', False)}
            if c['hasout']: x['outdir'] = c['outdir']
            return w.run(x)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if c['op'] in ('fn', 'outfiles'):
        c['cwd'] = comps(scratch())
        return w.run(dict(c, id=0, cwd=scratch()))
    if c['op'] == 'html':
        o = w.run({'op': 'html', 'id': 0, 'h': raw(c['h'])})
        s = o.get('shape')
        if s: o['sh'] = s['k'] + (':' + s['s'] if s['k'] == 'text' else '')
        o.pop('shape', None)
        return o
    if c['op'] in ('compile', 'strict'): return w.run({'op': 'compile', 'id': 0, 'src': c['src'], 'name': c['name'], 'level': c['lvl'], 'text': True, 'http': c.get('http', False)})
    return w.run(dict(c, id=0))
def execute(cases, n=8):
    """adds the observation of the real code to every case"""
    it = iter(range(len(cases))); lock = threading.Lock(); errs = []; slow = []
    scratch()
    def work():
        w = pv.Worker()
        try:
            while True:
                with lock: i = next(it, None)
                if i is None or len(slow) >= 12: break
                o = run_one(w, cases[i], i)
                o.pop('id', None); cases[i]['panic'] = o.pop('panic', '')
                cases[i]['obs'] = o
                if o['st'] == 'hang' or any(x.get('st') == 'hang' for x in o.get('steps', [])): slow.append(i)
        except Exception as e:
            import traceback; errs.append(traceback.format_exc())
        finally: w.close()
    try:
        ts = [threading.Thread(target=work) for _ in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
    finally: drop_scratch()
    if errs: raise pv.ToolError('execution: ' + errs[0])
    return cases
