"""Program generators.  Every generator is a deterministic function of a seed.
They know the grammar of Papyri but nothing of its meaning: what a program
should do is decided by the TLA+ specification only."""
import json, os, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALPHABET = json.load(open(V + '/spec/alphabet.json'))
if isinstance(ALPHABET, str): ALPHABET = list(ALPHABET)
ALPHASET = set(ALPHABET)
from pv import STAND, stood
SEEDS = json.load(open(V + '/corpus/seeds.json'))
ENTITIES = json.load(open(V + '/spec/entities.json'))
ENTNAMES = [n for n in ENTITIES if n.isalpha()]   # names with digits: see the known findings

TYPES = ['any', 'none', 'bool', 'int', 'str', 'html', 'block', 'inline', 'function', 'regex', 'list', 'dict']
INLINE = ['span', 'b', 'i', 'em', 'a', 'code', 'q', 'kbd', 'sub', 'sup', 'strong', 'u', 's', 'x_y', 'label', 'button']
BLOCK = ['div', 'section', 'article', 'main', 'nav', 'aside', 'header', 'footer', 'blockquote', 'form', 'fieldset', 'figure', 'details', 'address', 'hgroup', 'noscript']
BLOCK_I = ['p', 'h1', 'h2', 'h3', 'pre']
LISTY = ['ul', 'ol', 'menu', 'dl', 'table', 'tbody', 'thead', 'tfoot', 'tr', 'colgroup', 'html', 'select', 'datalist', 'optgroup']
PARTS = ['li', 'td', 'th', 'dt', 'dd', 'caption', 'figcaption', 'summary', 'legend', 'head', 'body', 'title', 'option']
VOID = ['br', 'hr', 'img', 'input', 'meta', 'link', 'wbr', 'area', 'col', 'embed', 'base', 'track', 'command', 'keygen', 'source', 'param']
RAWT = ['script', 'style', 'template', 'video', 'audio', 'canvas', 'iframe', 'textarea', 'object', 'svg', 'math', 'menuitem', 'slot', 'dialog']
ALLTAGS = INLINE + BLOCK + BLOCK_I + LISTY + PARTS + VOID + RAWT
WORDS = ['\ue000', 'a\ue001\ue004b', 'foo', 'bar', 'x', 'Hello', 'world', 'a1', 'café', 'naïve', '老虎', 'ß', 'x_y', '12', 'A', 'str', 'int', 'list', 'True']
PUNCT = ['.', ',', ';', ':', '!', '?', '-', '--', '---', '...', '(', ')', '*', '+', '/', '=', '|', '%', '^', '~', '&', '>', '<', '<-', '->', '<->', '<=', '>=', '!=', '=>', "'", '"', '[', ']', '_', '**', '5--8', '1-2', '-5', '::', '?::', '#', '$', '@', '\\#', '\\x41', '\\u00e9', '\\U0001F600', '&#x1F600;', '\\n', '&lt;', '&amp;', '&eacute;', '&nbsp;', '&#65;', '&#x42;', "it's", '(c)', '(tm)', "n't", '$5', '5%']
NAMES = ['a', 'b', 'c', 'x', 'y', 'z', 'foo', 'bar', 'len', 'n1']

PRELUDE = r'''@fn shd $p -> "$p::0=@"
@fn show $v -> @match $v {
  . -> {U}, True -> {T}, False -> {F}, _: int -> {I$v}, _: str -> {S(@html::escape_html $v)}, _: regex -> {R}, _: function -> {F(@function::name $v)},
  _: list -> {L(@list::join(`,`) @list::map($show) $v)},
  _: dict -> {D(@list::join(`,`) @list::map(@fn $p -> {$p::0:@show $p::1}) @dict::items $v)},
  _ -> {H(@html::escape_html $v)} }
'''.replace('@fn shd $p -> "$p::0=@"\n', '')

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.scopes = [[]]         # (name, type)
        self.fns = []              # (name, sig)
        self.err = 0.03            # chance of an ill-typed or odd choice
        self.uid = 0
    # -- helpers
    def ch(self, xs): return self.r.choice(xs)
    def p(self, x): return self.r.random() < x
    def n(self, a, b): return self.r.randint(a, b)
    def pick(self, *alts):
        """alts: (weight, thunk)"""
        t = sum(w for w, _ in alts); x = self.r.random() * t
        for w, f in alts:
            x -= w
            if x <= 0: return f()
        return alts[-1][1]()
    def ident(self): return self.ch(NAMES)
    def fresh(self):
        self.uid += 1
        return 'v%d' % self.uid
    def ws(self): return self.pick((6, lambda: ' '), (2, lambda: ''), (1, lambda: '\n'), (1, lambda: '  \n'), (0.4, lambda: ' # note\n'))
    def var(self, ty=None):
        vs = [x for s in self.scopes for x in s if ty is None or x[1] == ty]
        return '$' + self.ch(vs)[0] if vs else None
    def push(self): self.scopes.append([])
    def pop(self): self.scopes.pop()
    def decl(self, name, ty): self.scopes[-1].append((name, ty))
    # -- literals
    def intlit(self):
        return str(self.pick((8, lambda: self.n(0, 12)), (2, lambda: -self.n(1, 9)), (1, lambda: self.n(10, 99999)),
                   (0.3, lambda: self.ch([2**63 - 1, -2**63, 2**62, -2**63 + 1, 2**31, 2**32]))))
    def rawstr(self, hard=0.2):
        k = self.n(0, 3) if not self.p(0.2) else self.n(3, 8)
        out = []
        for _ in range(k):
            out.append(self.ch(ALPHABET) if self.p(hard * 0.4) else self.ch(WORDS + [' ', ' ', '-', '<', '&', '"', "'", '.', '  ']))
        return ''.join(out)
    def strlit(self, hard=0.2):
        return self.pick((6, lambda: self.verb(self.rawstr(hard))), (2, lambda: self.ch(['foo', 'bar', 'x', 'abc'])),
                         (2, lambda: self.template(1)))
    def verb(self, s):
        s = s.replace('`', '').replace('\n', ' ')
        if not s: return '``' if False else "''"
        return '`' + s + '`'
    def template(self, d):
        q = self.ch(['"', "'"])
        out = []
        for _ in range(self.n(0, 4)):
            out.append(self.pick((4, lambda: self.ch(WORDS)), (3, lambda: ' '), (1, lambda: self.ch(['&amp;', '\\"', "\\'", '\\#', '\\x41', '&eacute;', '--', '...', '.', '{}', '{ }', '<', '#', '5', ':', '::', '?'])),
                     (3, lambda: (self.var('str') or self.var('int') or 'zz') + self.ch(['', ' ', '.', '{}']))))
        s = ''.join(out)
        other = '"' if q == "'" else "'"
        return q + s.replace(q, '') .replace('\n', ' ') + q
    # -- expressions
    def e(self, ty, d=2):
        """an expression that should have the type ty"""
        if self.p(self.err):
            ty = self.ch(['int', 'str', 'bool', 'unit', 'list', 'dict', 'func', 'html', 'regex', 'inline', 'tag'])
        if self.p(0.3):
            v = self.var(ty)
            if v: return v
        if d > 0 and self.p(0.16): return self.wrap(ty, d)
        f = getattr(self, 'e_' + ty, None)
        return f(d) if f else self.e_any(d)
    def wrap(self, ty, d):
        """let, match, calls around an expression of the type"""
        def let():
            x = self.ident(); t2 = self.anyty()
            v = self.e(t2, d - 1)
            self.push(); self.decl(x, t2)
            b = self.e(ty, d - 1); self.pop()
            if b[0] not in '$@{[<"' and self.p(0.97): b = self.ch(['{%s}', '@match 1 {_ -> %s}']) % b if ty in ('html', 'inline', 'block') else '@match $%s {_ -> %s}' % (x, b)
            return '@%s(%s=%s) %s' % (self.ch(['let', 'let', 'let', 'implicit']), x, v, b)
        def match():
            t2 = self.anyty(); v = self.e(t2, d - 1)
            bs = []
            for _ in range(self.n(1, 3)):
                self.push(); p = self.pat(t2, 2); bs.append(p + ' -> ' + self.e(ty, d - 1)); self.pop()
            if self.p(0.8): bs.append('_ -> ' + self.e(ty, d - 1))
            return '@match %s {%s}' % (v, self.ch([', ', ',\n', ' , ']).join(bs))
        def ident(): return '@(%s)' if False else self.call_anon(ty, d)
        return self.pick((4, let), (3, match), (2, ident))
    def call_anon(self, ty, d):
        x = self.ident()
        t2 = self.anyty(); a = self.e(t2, d - 1)
        self.push(); self.decl(x, t2); b = self.e(ty, d - 1); self.pop()
        f = self.fresh()
        return '@let(%s=@fn $%s -> %s) @%s %s' % (f, x, b, f, a)
    def anyty(self):
        return self.ch(['int', 'int', 'str', 'str', 'str', 'bool', 'unit', 'list', 'list', 'dict', 'func', 'html', 'inline', 'tag', 'regex'])
    def e_any(self, d): return self.e(self.anyty(), d)
    def e_int(self, d):
        if d <= 0: return self.intlit()
        return self.pick((5, self.intlit),
            (2, lambda: '@int::add(%s).' % ', '.join(self.e('int', d - 1) for _ in range(self.n(0, 3)))),
            (1, lambda: '@int::negate %s' % self.e('int', d - 1)),
            (1, lambda: '@list::len %s' % self.e('list', d - 1)),
            (1, lambda: '@str::len %s' % self.e('str', d - 1)),
            (0.5, lambda: '@int::parse %s' % self.ch(['`12`', '`-7`', '`x`', '`+3`', '`007`', '`9223372036854775808`', '`-9223372036854775808`', "''", '` 1`'])),
            (0.5, lambda: '@dict::len %s' % self.e('dict', d - 1)))
    def e_bool(self, d):
        lit = lambda: self.ch(['True', 'False'])
        if d <= 0: return lit()
        return self.pick((4, lit), (1, lambda: '@bool::and(%s, %s).' % (self.e('bool', d-1), self.e('bool', d-1))),
            (1, lambda: '@bool::or(%s, %s).' % (self.e('bool', d-1), self.e('bool', d-1))),
            (1, lambda: '@bool::negate %s' % self.e('bool', d-1)), (1, lambda: '@bool::from %s' % self.e_any(d-1)),
            (1, lambda: '@list::contains(%s) %s' % (self.e_any(d-1), self.e('list', d-1))),
            (1, lambda: '@str::is_empty %s' % self.e('str', d-1)))
    def e_str(self, d):
        if d <= 0: return self.strlit()
        return self.pick((6, self.strlit), (2, lambda: self.template(d)), (1, lambda: '@str::%s %s' % (self.ch(['upper', 'lower', 'trim', 'escape_html', 'unique_id']), self.e('str', d-1))),
            (0.7, lambda: '@typeof %s' % self.e_any(d-1)), (0.5, lambda: '@html::escape_html %s' % self.e('html', d-1)))
    def e_unit(self, d): return self.pick((6, lambda: '.'), (1, lambda: '{}'), (0.5, lambda: '@let(%s=1) {}' % self.ident()))
    def e_list(self, d):
        if d <= 0: return '[%s]' % ', '.join(self.intlit() for _ in range(self.n(0, 3)))
        def lit():
            k = self.n(0, 4); same = self.p(0.6); t = self.anyty()
            it = []
            for _ in range(k):
                if self.p(0.1): it.append('*' + self.e('list', d-1))
                else: it.append(self.e(t if same else self.anyty(), d-1))
            return '[%s%s]' % (', '.join(it), ',' if k and self.p(0.1) else '')
        return self.pick((8, lit), (3, lambda: self.listop(d)), (1, lambda: '@dict::%s %s' % (self.ch(['keys', 'values', 'items']), self.e('dict', d-1))),
                         (1, lambda: '@str::split(%s) %s' % (self.ch(['` `', '`a`', '`,`', "''", self.e('str', d-1)]), self.e('str', d-1))))
    def listop(self, d):
        L = lambda: self.e('list', d - 1)
        return self.pick((2, lambda: '@list::slice(%s) %s' % (', '.join(str(self.n(-5, 5)) for _ in range(self.n(1, 2))), L())),
            (1, lambda: '@list::reversed %s' % L()), (1, lambda: '@list::flat %s' % L()),
            (1, lambda: '@list::filter %s' % L()), (1, lambda: '@list::filter(%s) %s' % (self.fn1('bool', d-1), L())),
            (2, lambda: '@list::map(%s) %s' % (self.fn1(self.anyty(), d-1), L())),
            (1, lambda: '@list::enumerate%s %s' % (self.ch(['', '', '(from=%s)' % self.intlit()]), L())),
            (2, lambda: '@list::sorted%s %s' % (self.ch(['', '(reversed=True)', '(key=%s)' % self.fn1('int', d-1), '(key=%s, reversed=True)' % self.fn1('str', d-1)]), L())),
            (1, lambda: '@list::html_nodes %s' % self.e('html', d-1)))
    def fn1(self, ty, d):
        """a function of one content argument"""
        v = self.var('func')
        if v and self.p(0.2): return v
        x = self.ident(); self.push(); self.decl(x, 'any')
        b = self.pick((3, lambda: '$' + x), (3, lambda: self.e(ty, d)), (2, lambda: self.ch(['@list::len $%s', '@str::len $%s', '@typeof $%s', '@bool::from $%s', '@int::add($%s, 1).', '[$%s]', '{$%s!}', '@match $%s {_: int -> True, _ -> False}', '@int::negate $%s']) % x))
        self.pop()
        t = self.ch(['', '', '', ': ' + self.tyname(1)])
        return '@fn $%s%s -> %s' % (x, t, b)
    def tyname(self, d=2):
        t = self.ch(TYPES)
        for _ in range(self.n(0, d)):
            t += self.ch([' list', ' dict', '?'])
        if self.p(0.01): t += self.ch([' foo', ' int', '??'])
        return t
    def e_dict(self, d):
        if d <= 0: return '@dict::new(%s).' % ', '.join('%s=%s' % (k, self.intlit()) for k in self.r.sample(NAMES, self.n(0, 3)))
        def lit():
            ks = self.r.sample(NAMES, self.n(0, 4))
            it = ['%s=%s' % (k, self.e_any(d-1)) for k in ks]
            if self.p(0.15): it.append('**' + self.e('dict', d-1))
            return '@dict::new(%s).' % ', '.join(it)
        return lit()
    def e_func(self, d):
        return self.pick((4, lambda: self.fn1(self.anyty(), max(0, d-1))), (2, lambda: self.anonfn(max(0, d-1))[0]),
            (1, lambda: '$' + self.ch(['str::upper', 'list::len', 'int::add', 'dict::new', 'bool::from', 'typeof', 'bold', 'href', 'list::map', 'function::bind'])),
            (1, lambda: '@function::bind(%s%s)%s' % (self.e('func', d-1), ''.join(', ' + self.e_any(0) for _ in range(self.n(0, 1))), self.ch(['.', '.', ' ' + self.e_any(0)])) if d > 0 else self.fn1('int', 0)))
    def e_regex(self, d):
        return '@regex::compile `%s`' % self.regex()
    def regex(self, d=2):
        def atom(d):
            return self.pick((5, lambda: self.ch(list('abcxyz01 '))), (1, lambda: '.'), (1, lambda: self.ch(['\\d', '\\w', '\\s'])),
                (1, lambda: '[' + self.ch(['a-c', 'xyz', '^a', '0-9', 'a-zA-Z', 'a-c0']) + ']'),
                (1.5 if d > 0 else 0, lambda: '(' + self.ch(['', '', '?:', '?P<%s>' % self.ch(['p', 'q', 'r', 'aB', 'N', 'n_1', 'p', 'q'])]) + alt(d - 1) + ')'))
        def rep(d):
            a = atom(d)
            # what a repetition of something that can match nothing captures is left open
            if a[0] == '(' and any(c in a for c in '*?|^$') and a[:3] not in ('(?:', '(?P') or a[0] == '(' and any(c in a[3:] for c in '*?|^$'):
                return a
            return a + self.pick((6, lambda: ''), (1, lambda: '*'), (1, lambda: '+'), (1, lambda: '?'), (0.5, lambda: '*?'), (0.4, lambda: '+?'))
        def seq(d): return ''.join(rep(d) for _ in range(self.n(1, 3)))
        def alt(d): return '|'.join(seq(d) for _ in range(1 if self.p(0.75) else 2))
        s = alt(d)
        if self.p(0.08): s = '^' + s
        if self.p(0.08): s += '$'
        return s
    # -- html
    def e_inline(self, d): return self.pick((3, lambda: '{%s}' % self.inline(d)), (2, lambda: self.tag(d, INLINE)), (1, lambda: self.e('str', d-1) if d > 0 else 'foo'))
    def e_tag(self, d): return self.tag(d, self.ch([INLINE, BLOCK, ALLTAGS]))
    def e_html(self, d): return self.pick((2, lambda: self.e_inline(d)), (2, lambda: self.e_tag(d)), (1, lambda: '{%s}' % self.content(d)))
    def inline(self, d, k=None):
        out = []
        for _ in range(k or self.n(0, 4)):
            out.append(self.pick((4, lambda: self.ch(WORDS)), (3, lambda: ' '), (1, lambda: self.ch(PUNCT[:30] + ['&lt;', '\\#', '&eacute;', "it's"])),
                (2 if d > 0 else 0, lambda: self.tag(d - 1, INLINE)),
                (1.5, lambda: (self.var('str') or self.var('inline') or self.var('int') or 'w') + self.ch([' ', '.', ''])),
                (0.7 if d > 0 else 0, lambda: '{%s}' % self.inline(d - 1)),
                (0.7 if d > 0 else 0, lambda: '@%s {%s}' % (self.ch(['b', 'i', 'bold', 'emph', 'quote', 'span', 'sub']), self.inline(d-1))),
                (0.4 if d > 0 else 0, lambda: self.ch(['@show ', '@typeof ']) + self.e_any(d-1)),
                (0.3, lambda: '`%s`' % self.ch(['code', 'x y', '<&>']))))
        return ''.join(out)
    def content(self, d):
        out = []
        for _ in range(self.n(0, 4)):
            out.append(self.pick((4, lambda: self.inline(d)), (2 if d > 0 else 0, lambda: self.tag(d - 1, BLOCK + BLOCK_I + ALLTAGS)), (1, lambda: '')))
            out.append(self.ch(['', ' ', '\n', '\n\n', '\n\n', '\n \n\n', '#\n', ' # c\n']))
        return ''.join(out)
    def attr(self):
        x = self.ch(['id', 'class', 'title', 'href', 'data_x' if self.p(0.97) else 'data-x', 'data_y', 'lang', 'x'])
        return self.pick((5, lambda: '%s=%s' % (x, self.ch([self.verb(self.rawstr(0.3) or 'q'), 'foo', self.template(1), self.var('str') or '`v`']))),
            (2, lambda: x), (1.5, lambda: '%s?=%s' % (x, self.ch(['.', '`v`', 'foo', self.var('str') or '.']))),
            (0.7, lambda: '**@dict::new(%s).' % ', '.join('%s=%s' % (self.ch(['id', 'k', 'w']), self.ch(['foo', '`a"b`', '.'])) for _ in range(self.n(0, 2)))),
            (0.2, lambda: '%s=%s' % (x, self.ch(['5', 'True', '.', '[1]', '{a}', '<b>x</b>']))))
    def attrs(self):
        k = 0 if self.p(0.6) else self.n(1, 3)
        return ''.join(self.ch([' ', ' ', '\n  ']) + self.attr() for _ in range(k))
    def tag(self, d, names):
        t = self.ch(names)
        if self.p(0.05): t = t.upper()
        if self.p(0.05): return '<$%s%s>%s</>' % ((self.var('str') or '$zz')[1:], self.attrs(), self.inline(d - 1) if d > 0 else 'x')
        if self.p(0.08): return '<%s%s%s/>' % (t, self.attrs(), self.ch(['', ' ']))
        if t.lower() in VOID: return '<%s%s>' % (t, self.attrs())
        if d <= 0: c = self.ch(['', 'foo', ' ', ' x ', '$zz' if self.p(.05) else 'y'])
        elif t in LISTY: c = ''.join(self.ch(['', ' ', '\n']) + self.tag(d - 1, PARTS + LISTY if self.p(0.9) else ALLTAGS) for _ in range(self.n(0, 3)))
        else: c = self.content(d - 1) if (t in BLOCK or t in PARTS) and self.p(0.7) else self.inline(d - 1)
        return '<%s%s>%s%s' % (t, self.attrs(), c, self.ch(['</>', '</>', '</%s>' % t, '</%s>' % t] if not self.p(self.err) else ['', '</zz>', '</']))
    # -- patterns
    def pat(self, ty, d=2):
        if self.p(0.06): ty = self.anyty()
        def var():
            x = self.ident(); self.decl(x, ty); return '$' + x
        simple = lambda: self.pick((3, var), (2, lambda: '_'), (2, lambda: '_: %s' % self.tyname(1)), (1, lambda: var() + ': ' + self.tyname(1)),
                                   (0.7, lambda: '_: $' + self.tyvar()), (0.7, lambda: '=' + self.e(ty, 0)), (0.7, lambda: var() + ': $' + self.tyvar()))
        f = getattr(self, 'p_' + ty, None)
        if f and self.p(0.6): a = f(d)
        else: a = simple()
        if d > 0 and self.p(0.1): a = a + ' & ' + self.pat(ty, d - 1)
        if d > 0 and self.p(0.1): a = a + ' | ' + self.pat(ty, d - 1)
        return a
    def tyvar(self):
        x = self.ident(); self.decl(x, 'str'); return x
    def p_unit(self, d): return '.'
    def p_int(self, d): return self.intlit()
    def p_bool(self, d): return self.ch(['True', 'False'])
    def p_str(self, d):
        def tpl():
            q = self.ch('"\''); out = []
            for _ in range(self.n(0, 3)):
                if self.p(0.45):
                    x = self.ident(); self.decl(x, 'str'); out.append('$' + x)
                else: out.append(self.ch(['foo', ' ', '-', 'x', '.', '/', 'a', '<', 'é']))
            return q + ''.join(out) + q
        return self.pick((2, lambda: self.verb(self.ch(['foo', 'bar', 'x', 'abc', 'a b'])) ), (4, tpl))
    def seqpat(self, d, sub, sep, o, c):
        k = self.n(0, 4); sp = self.n(0, k) if self.p(0.6) else -1
        it = []
        for i in range(k):
            if i == sp: it.append(self.pick((3, lambda: '*_'), (3, lambda: '*$' + self.vv('list')), (2, lambda: '...'), (1, lambda: '*' + self.pat('list', d - 1))))
            else: it.append(sub())
        return o + sep.join(it) + c
    def vv(self, ty):
        x = self.ident(); self.decl(x, ty); return x
    def p_list(self, d):
        if d <= 0: return self.ch(['[]', '[_]', '[*_]', '[_, _]'])
        t = self.anyty()
        return self.seqpat(d, lambda: self.pat(t if self.p(.5) else self.anyty(), d - 1), ', ', '[', ']')
    def p_dict(self, d):
        ks = self.r.sample(NAMES, self.n(0, 3))
        it = ['%s=%s' % (k, self.pat(self.anyty(), d - 1) if d > 0 else '_') for k in ks]
        if self.p(0.5): it.append(self.ch(['...', '**_', '**$' + self.vv('dict')]))
        return '(' + ', '.join(it) + ')'
    def p_inline(self, d): return self.p_html(d)
    def p_html(self, d):
        if d <= 0: return self.ch(['{}', '{_}', '{*_}', '{*$%s}' % self.vv('html')])
        def sub():
            return self.pick((3, lambda: self.p_tag(d - 1)), (3, lambda: '$' + self.vv('html')), (2, lambda: '_'), (1, lambda: '_: ' + self.ch(['html', 'block', 'inline', 'str'])),
                             (0.3, lambda: self.ch(['5', '[]', "'x'"])))
        return self.seqpat(d, sub, ' ', '{', '}')
    def p_tag(self, d):
        n = self.pick((6, lambda: self.ch(INLINE[:5] + BLOCK[:3] + ['p', 'br'])), (2, lambda: '$' + self.vv('str')), (1, lambda: '_'))
        at = []
        for _ in range(self.n(0, 2) if self.p(0.5) else 0):
            at.append(self.pick((3, lambda: '%s=%s' % (self.ch(['id', 'class', 'x']), self.ch(['`v`', '$' + self.vv('str'), '_', '.', "'foo $a'"]))), (2, lambda: self.ch(['id', 'class', 'hidden', 'x']))))
        if self.p(0.5): at.append(self.ch(['**_', '**$' + self.vv('dict'), '...', '**.']))
        a = ''.join(' ' + x for x in at)
        if self.p(0.2) or n == 'br': return '<%s%s/>' % (n, a)
        c = self.pick((2, lambda: ''), (3, lambda: '_'), (3, lambda: '$' + self.vv('html')), (2, lambda: self.p_html(d - 1) if d > 0 else '{*_}'))
        return '<%s%s>%s%s' % (n, a, c, '</>' if n[0] in '_$' or self.p(0.6) else '</%s>' % n)
    # -- functions
    def sig(self, d=1):
        """a signature and what calls should look like: (text, [positional], spread, [named], nspread, content)"""
        pos, named = [], []
        items = []
        opt = False
        for i in range(self.n(0, 2)):
            x = '_' + NAMES[i]; t = self.ch([None, 'int', 'str', 'list', 'any', self.tyname(1)])
            s = '$' + x
            if self.p(0.12) or opt and self.p(0.8): s += '?'; o = True
            else: o = False
            if t: s += ': ' + t
            if not o and (opt or self.p(0.2)): s += ' = ' + self.lit_of(t); o = True
            opt = opt or o
            items.append(s); pos.append((x, t, o))
        sp = None
        if self.p(0.2):
            t = self.ch([None, 'int list', 'str list', 'list', 'any list'])
            items.append('*$_r' + (': ' + t if t else '')); sp = t or 'any'
        optn = False
        for i in range(self.n(0, 2)):
            x = NAMES[4 + i]; t = self.ch([None, 'int', 'str', 'bool', 'html', self.tyname(1)])
            imp = self.p(0.25)
            s = '$' + x
            if self.p(0.25) or optn: s += '?'; o = True
            else: o = False
            if t or imp: s += ': ' + (self.ch(['@implicit ', '@implicit ', '@implicit  ', 'implicit ']) if imp else '') + (t or 'any')
            if not o and not imp and self.p(0.2): s += ' = ' + self.lit_of(t); o = True
            optn = optn or o
            items.append(s); named.append((x, t, o, imp))
        ns = None
        if self.p(0.2):
            t = self.ch([None, 'int dict', 'dict', 'str dict'])
            items.append('**$kw' + (': ' + t if t else '')); ns = t or 'any'
        if self.p(self.err) and items: self.r.shuffle(items)
        con = None if self.p(0.35) else self.ch([None, 'any', 'int', 'str', 'inline', 'html', 'block', 'none', self.tyname(1)])
        hasc = con is not None or self.p(0.5)
        txt = '(%s)' % ', '.join(items) if items or self.p(0.3) else ''
        if hasc: txt += ' $' + self.ch(['cc', '_', '_cc']) + (('?' if self.p(.1) else '') + ': ' + con if con else '')
        else: txt += '.' if txt else ' .'
        return txt, pos, sp, named, ns, (con or 'any') if hasc else None
    def lit_of(self, t):
        m = {'int': 'int', 'str': 'str', 'bool': 'bool', 'list': 'list', 'html': 'inline', 'none': 'unit', None: 'int', 'any': 'str', 'function': 'func', 'dict': 'dict', 'inline': 'inline', 'regex': 'regex', 'block': 'tag'}
        if t and t.endswith('?') and self.p(0.4): return '.'
        if t in m: return self.e(m[t], 1)
        if t and t.endswith(' list'): return '[' + ', '.join(self.lit_of(t[:-5]) for _ in range(self.n(0, 2))) + ']'
        if t and t.endswith(' dict'): return '@dict::new(%s).' % ', '.join('%s=%s' % (k, self.lit_of(t[:-5])) for k in NAMES[:self.n(0, 2)])
        if t and t.endswith('?'): return self.lit_of(t[:-1])
        return self.e_any(1)
    def anonfn(self, d, name=''):
        sg = self.sig()
        txt, pos, sp, named, ns, con = sg
        self.push()
        names = [x[0] for x in pos] + [x[0] for x in named] + (['_r'] if sp else []) + (['kw'] if ns else []) + (['cc'] if con and ' $cc' in txt else [])
        for x in names: self.decl(x, 'any')
        body = self.pick((5, lambda: '[%s]' % ', '.join('$' + x for x in names)), (2, lambda: self.e_any(d)), (1, lambda: '{%s}' % ' '.join('@show $%s' % x for x in names)))
        self.pop()
        return '@fn%s%s -> %s' % (' ' + name if name else '', txt if txt.startswith(('(', ' ')) else ' ' + txt, body), sg
    def args_for(self, sg):
        txt, pos, sp, named, ns, con = sg
        it = []
        for x, t, o in pos:
            if o and self.p(0.4): break
            it.append(self.lit_of(t))
        if sp and self.p(0.6):
            for _ in range(self.n(0, 2)): it.append(self.lit_of(sp[:-5] if sp.endswith(' list') else None))
        if self.p(0.15): it.append('*[%s]' % ', '.join(self.e_any(0) for _ in range(self.n(0, 2))))
        kw = []
        for x, t, o, imp in named:
            if (o or imp) and self.p(0.5): continue
            kw.append('%s=%s' % (x, self.lit_of(t)))
        if ns and self.p(0.6): kw.append('%s=%s' % (self.ch(['k1', 'k2', 'w']), self.lit_of(ns[:-5] if ns.endswith(' dict') else None)))
        if self.p(0.12): kw.append('**@dict::new(%s).' % ', '.join('%s=%s' % (k, self.e_any(0)) for k in self.r.sample(['k3', 'y', 'z'], self.n(0, 2))))
        self.r.shuffle(kw)
        it += kw
        # mutations
        if self.p(0.15) and it: it.pop(self.n(0, len(it) - 1))
        if self.p(0.12): it.insert(self.n(0, len(it)), self.pick((2, lambda: self.e_any(0)), (2, lambda: '%s=%s' % (self.ch(['y', 'zz', '_a', 'cc']), self.e_any(0)))))
        if con is None: c = '.' if not self.p(0.1) else ' ' + self.e_any(0)
        else: c = ' ' + self.lit_of(con) if not self.p(0.12) else '.'
        if not it and not self.p(0.3): return ('.' if c == '.' else c)
        return '(' + ', '.join(it) + ')' + c
    def call(self, name, sg):
        return '@' + name + self.args_for(sg)

# ---------------------------------------------------------------- profiles
def show(e): return '@show %s\n' % e

def prog_scope(g):
    out = [PRELUDE] if g.p(0.7) else []
    names = ['a', 'b', 'c', 'f', 'g']
    def stmt(d, env, fns):
        def use(): return '{' + ''.join('$%s{}' % g.ch(names) for _ in range(g.n(1, 2))) + '}'
        def let():
            k = g.n(1, 2); kw = g.ch(['let', 'let', 'let', 'implicit'])
            vs = ', '.join('%s=%s' % (g.ch(names), g.pick((3, lambda: g.intlit()), (2, lambda: '$' + g.ch(names)), (1, lambda: use()), (1.2, lambda: fn('', d - 1)), (0.5, lambda: '[$%s]' % g.ch(names)))) for _ in range(k))
            return '@%s(%s) %s' % (kw, vs, g.pick((4, lambda: '{' + body(d - 1) + '}'), (1, lambda: '$' + g.ch(names)), (1, lambda: '...' + g.ch([' ', '\n']) + body(d - 1))))
        def fn(name, d):
            ps = g.pick((3, lambda: ''), (2, lambda: '($%s?)' % g.ch(names)), (1.5, lambda: '($%s: @implicit any)' % g.ch(names)), (1, lambda: '($_%s)' % g.ch(names)), (1, lambda: '($%s = $%s)' % (g.ch(names), g.ch(names))), (1, lambda: '($%s?: @implicit any)' % g.ch(names)))
            c = g.ch([' $' + g.ch(names), ' $_', '.' if ps else ' .'])
            return '@fn%s%s%s -> %s' % (' ' + name if name else '', ps, c, g.pick((4, lambda: '{' + body(d) + '}'), (2, lambda: use()), (1, lambda: '$' + g.ch(names)), (1, lambda: fn('', d - 1) if d > 0 else '1')))
        def call():
            f = g.ch(names)
            a = g.pick((4, lambda: ''), (1.5, lambda: '(%s=%s)' % (g.ch(names), g.intlit())), (1, lambda: '(%s)' % g.intlit()))
            return '@%s%s%s' % (f, a, g.pick((3, lambda: '.'), (3, lambda: ' ' + g.intlit()), (1, lambda: ' ' + use()), (1, lambda: ' {' + body(d - 1) + '}' if d > 0 else '.')))
        def match():
            return '@match %s {%s}' % (g.ch(['1', '2', '[1, 2]', '$a', '`s`']), ', '.join('%s -> {%s}' % (g.ch(['$' + g.ch(names), '[$%s, $%s]' % (g.ch(names), g.ch(names)), '1', '$a | $b', '[$a, _] | $a', '_', '_: $%s' % g.ch(names), '=$' + g.ch(names)]), body(d - 1)) for _ in range(g.n(1, 2))))
        def exp(): return g.pick((1, lambda: '@export(%s=%s)' % (g.ch(names), g.intlit())), (1, lambda: '@export ' + fn(g.ch(names), d)), (1, lambda: '@export @let(%s=%s) {\n%s}' % (g.ch(names), g.intlit(), '@export ' + fn(g.ch(names), d - 1) + '\n' if d > 0 else '')))
        if d <= 0: return use()
        return g.pick((4, use), (4, let), (3, lambda: fn(g.ch(names), d - 1)), (4, call), (2, match), (0.5, exp), (1, lambda: '{' + body(d - 1) + '}'), (0.7, lambda: '<b>' + body(d - 1) + '</>'))
    def body(d): return g.ch([' ', '\n', ' ; ', '']).join(stmt(d, None, None) for _ in range(g.n(1, 3)))
    if g.p(0.7): out.append('@let(%s=%s)...\n' % ('a', g.intlit()))
    for x in g.r.sample(names, g.n(0, 3)):
        if x in 'fg': out.append('@fn %s($%s?) $%s -> {%s}\n' % (x, g.ch(names), g.ch(names), body(1)))
        else: out.append('@%s(%s=%s)...\n' % (g.ch(['let', 'implicit']), x, g.intlit()))
    for _ in range(g.n(1, 4)): out.append(stmt(3, None, None) + g.ch(['\n', '\n\n', ' ']))
    return ''.join(out)

def prog_call(g):
    out = [PRELUDE]
    fs = []
    if g.p(0.5): out.append('@implicit(%s=%s)...\n' % (g.ch(['y', 'z', 'foo']), g.e_any(0)))
    if g.p(0.3): out.append('@let(%s=%s)...\n' % (g.ch(['y', 'z']), g.e_any(0)))
    for i in range(g.n(1, 2)):
        name = 'f%d' % i
        t, sg = g.anonfn(1, name)
        out.append(t + '\n'); fs.append((name, sg)); g.decl(name, 'func')
    for _ in range(g.n(1, 4)):
        name, sg = g.ch(fs)
        c = g.call(name, sg)
        def bound():
            a = g.args_for(sg)
            if a.startswith('('):
                a = a[1:]; i = a.rfind(')'); inner, rest = a[:i], a[i+1:]
                b = '@function::bind($%s, %s)%s' % (name, inner, g.ch([rest, '.']))
            else: b = '@function::bind($%s)%s' % (name, g.ch([a, '.']))
            return '@let(h=%s) @h%s' % (b, g.args_for(sg))
        def partial(): return '@let(h=$%s) @h%s' % (name, g.args_for(sg))
        def implicit(): return '@implicit(%s=%s) %s' % (g.ch(['y', 'z']), g.e_any(0), c)
        def native():
            n = g.ch(['list::slice(1) [1, 2, 3]', 'list::slice(1, 2, 3) [1]', 'list::slice [1]', 'list::enumerate(from=`x`) [1]', 'list::enumerate(frm=1) [1]', 'int::add(1, `x`).', 'str::unique_id(max_length=0) foo', 'list::get(7) [1]', 'list::sorted(reversed=True, reversed=False) [1]', 'bool::and(True).', 'bool::and(True, False, True).', 'bool::and(True, False) x', 'dict::get(`k`) @dict::new(k=1).', 'str::split foo', 'typeof(1) 2', 'href(`u`) {x}', 'href {x}', 'image(alt=`q`) `u`'])
            return '@' + n
        out.append(show(g.pick((6, lambda: c), (3, bound), (1, partial), (1.5, implicit), (1, native))))
    return ''.join(out)

def prog_types(g):
    out = [PRELUDE]
    g.err = 0.0
    for _ in range(g.n(1, 4)):
        v = g.e_any(2)
        t = g.tyname(2)
        k = g.n(0, 6)
        if k == 0: out.append('@let(q=@fn $v: %s -> $v) @show @q %s\n' % (t, v))
        elif k == 1: out.append('@let(q=@fn($v: %s). -> $v) @show @q(v=%s).\n' % (t, v))
        elif k == 2: out.append('@show @typeof %s\n' % v)
        elif k == 3: out.append('@match %s {_: %s -> yes, _ -> no}\n' % (v, t))
        elif k == 4: out.append('@let(q=@fn $v: %s -> @typeof $v) @q @let(w=%s) $w\n' % (t, v))
        elif k == 5: out.append('@show @typeof [%s]\n' % ', '.join(g.e_any(1) for _ in range(g.n(1, 3))))
        else: out.append('@let(q=@fn($_a: %s, *$_r: %s list) $c: %s -> [$_a, $_r, $c]) @show @q(%s, %s) %s\n' % (t, g.tyname(1), g.tyname(1), g.e_any(1), g.e_any(1), g.e_any(1)))
    return ''.join(out)

def prog_match(g):
    out = [PRELUDE]
    if g.p(0.3): out.append('@let(a=%s, x=%s)...\n' % (g.e_any(0), g.e_any(0)))
    for _ in range(g.n(1, 3)):
        t = g.anyty(); v = g.e(t, 2)
        bs = []
        for _ in range(g.n(1, 3)):
            g.push(); p = g.pat(t, 2)
            names = [x for x, _ in g.scopes[-1]]
            body = g.pick((5, lambda: '[%s]' % ', '.join('$' + x for x in names)), (1, lambda: g.e_any(0)))
            bs.append(p + ' -> ' + body); g.pop()
        if g.p(0.8): bs.append('_ -> none')
        out.append(show('@match %s {%s}' % (v, ', '.join(bs))))
    return ''.join(out)

def prog_match_html(g):
    out = [PRELUDE]
    for _ in range(g.n(1, 3)):
        v = g.pick((2, lambda: g.tag(2, INLINE[:5] + BLOCK[:3] + ['p'])), (2, lambda: '{%s}' % ''.join(g.tag(1, INLINE[:5]) + g.ch(['', '', ' ', 'x']) for _ in range(g.n(0, 4)))), (1, lambda: '{%s}' % g.content(2)))
        bs = []
        for _ in range(g.n(1, 3)):
            g.push(); p = g.ch([g.p_html, g.p_tag])(2)
            names = [x for x, _ in g.scopes[-1]]
            bs.append(p + ' -> [%s]' % ', '.join('$' + x for x in names)); g.pop()
        bs.append('_ -> none')
        out.append(show('@match %s {%s}' % (v, ', '.join(bs))))
    return ''.join(out)

# -- subjects together with patterns which describe them, exactly or almost
def pm_val(g, d):
    k = g.n(0, 11) if d > 0 else g.n(0, 4)
    if k == 0: return ('int', g.ch([0, 1, 2, 5, -3, 10]))
    if k == 1: return ('bool', g.p(0.5))
    if k <= 3: return ('str', g.ch(['foo', 'bar', 'a b', 'a-b', 'foo bar', 'x.y', 'aXbXc', 'é-é', 'x', 'a\nb']))
    if k == 4: return ('unit',)
    if k <= 7: return ('list', [pm_val(g, d - 1) for _ in range(g.n(0, 4))])
    if k == 8: return ('dict', [(x, pm_val(g, d - 1)) for x in g.r.sample(['k', 'l', 'm', 'n'], g.n(0, 3))])
    if k <= 10: return pm_tag(g, d)
    return ('seq', [pm_tag(g, d - 1) if g.p(0.8) else ('text', g.ch(['foo', ' ', 'x y'])) for _ in range(g.n(1, 4))])
def pm_tag(g, d):
    as_ = [(x, g.ch([('str', 'v'), ('str', 'a b'), ('flag',)])) for x in g.r.sample(['id', 'class', 'x', 'data_y'], g.ch([0, 0, 1, 2]))]
    n = g.ch(['b', 'i', 'span', 'em', 'br', 'div', 'a'])
    ch = [] if n == 'br' or d <= 0 else [pm_tag(g, d - 1) if g.p(0.7) else ('text', g.ch(['foo', 'x'])) for _ in range(g.ch([0, 0, 1, 1, 2, 3]))]
    return ('tag', n, as_, ch)
def pm_norm(hs):
    out = []
    for h in hs:
        if out and h[0] == 'text' and out[-1][0] == 'text': out[-1] = ('text', out[-1][1] + h[1])
        else: out.append(h)
    return out
def pm_src(v):
    k = v[0]
    if k == 'int': return str(v[1])
    if k == 'bool': return str(v[1])
    if k == 'str': return '`%s`' % v[1] if '\n' not in v[1] else '"%s"' % v[1].replace('\n', '\\n')
    if k == 'unit': return '.'
    if k == 'list': return '[%s]' % ', '.join(map(pm_src, v[1]))
    if k == 'dict': return '@dict::new(%s).' % ', '.join('%s=%s' % (x, pm_src(y)) for x, y in v[1])
    if k == 'text': return v[1]
    if k == 'seq': return '{%s}' % ''.join(map(pm_src, v[1]))
    a = ''.join(' %s' % x if y[0] == 'flag' else ' %s=`%s`' % (x, y[1]) for x, y in v[2])
    return '<%s%s>' % (v[1], a) if v[1] == 'br' else '<%s%s>%s</>' % (v[1], a, ''.join(map(pm_src, v[3])))
TYPE_OF = {'int': ['int', 'any', 'inline', 'html'], 'bool': ['bool', 'any'], 'str': ['str', 'html', 'inline', 'any'], 'unit': ['none', 'html', 'int?'], 'list': ['list', 'any list', 'any'], 'dict': ['dict', 'any dict'],
           'tag': ['html', 'inline', 'block', 'any'], 'seq': ['html', 'inline', 'block'], 'text': ['str', 'html', 'inline']}
class PM:
    """writes a pattern for a value; each part may be got wrong with probability `miss`"""
    def __init__(self, g, names, miss=0.0): self.g, self.names, self.miss, self.used = g, names, miss, []
    def var(self):
        x = self.g.ch(self.names) if self.names else '_zz'
        if x in self.used and self.g.p(0.9):
            rest = [y for y in self.names if y not in self.used]
            if not rest: return '_'
            x = self.g.ch(rest)
        self.used.append(x); return '$' + x
    def pat(self, v, d=3, html=False):
        g = self.g; k = v[0]
        x = g.r.random()
        if x < self.miss: v = g.ch([('int', 77), ('tag', 'u', [], []), ('str', 'zz'), ('list', [v]), pm_val(g, 1)]) if not html else ('tag', 'u', [], []); k = v[0]
        x = g.r.random()
        if x < 0.2: a = self.var()
        elif x < 0.25: a = '_'
        elif x < 0.31: a = '_: ' + g.ch(TYPE_OF[k] if g.p(0.8) else TYPES)
        elif x < 0.35: a = self.var() + ': ' + g.ch(TYPE_OF[k] if g.p(0.8) else TYPES)
        elif x < 0.37: a = '_: ' + self.var()
        elif x < 0.40 and k != 'text': a = '=' + pm_src(v)
        else: a = self.shape(v, d)
        if d > 0 and g.p(0.06): a = '%s & %s' % (a, self.pat(v, d - 1, html))
        if d > 0 and g.p(0.12):
            # both sides of an alternative may bind the same names
            u = self.used; self.used = []
            o = PM(g, self.names, 0.5); o.used = list(u)
            left = o.pat(v, d - 1, html)
            a = g.ch(['%s | %s' % (left, a), '%s | %s' % (a, left)]) if '&' not in a else '%s | %s' % (left, a)
            self.used = u + self.used + [y for y in o.used if y not in u]
        return a
    def items(self, vs, d, html):
        g = self.g; n = len(vs); out = []
        if g.p(0.45):
            i = g.n(0, n); j = g.n(i, n)
            if g.p(self.miss) and n: i, j = g.n(0, n), n
            mid = ('list', vs[i:j]) if not html else ('seq', vs[i:j])
            sp = g.pick((2, lambda: '...'), (2, lambda: '*_'), (4, lambda: '*' + self.var()), (3, lambda: '*' + (self.shape(mid, d - 1) if d > 0 and mid[1] else '_')), (1, lambda: '*' + self.var() + ': ' + g.ch(['list', 'html', 'int list', 'any'])))
            return [self.pat(x, d - 1, html) for x in vs[:i]] + [sp] + [self.pat(x, d - 1, html) for x in vs[j:]]
        out = [self.pat(x, d - 1, html) for x in vs]
        if g.p(self.miss): out.append('_')
        return out
    def named(self, kvs, d, tag):
        g = self.g; ks = list(kvs); rest = None; out = []
        if g.p(0.5):
            drop = g.n(0, len(ks)); g.r.shuffle(ks); ks = ks[drop:]
            rest = g.pick((2, lambda: '...'), (2, lambda: '**_'), (3, lambda: '**' + self.var()), (0.7, lambda: '**.'), (0.7, lambda: '**(%s=_)' % g.ch(['k', 'l', 'id', 'class'])))
        elif g.p(0.3): g.r.shuffle(ks)
        for x, y in ks:
            if tag and y[0] == 'flag': out.append(g.pick((3, lambda: x), (1, lambda: x + '=.'), (1, lambda: x + '=' + self.var())))
            else: out.append('%s=%s' % (x, self.pat(y, d - 1)))
        if g.p(self.miss): out.append('zz=_')
        if rest: out.insert(g.n(0, len(out)), rest) if g.p(0.3) else out.append(rest)
        return out
    def shape(self, v, d):
        g = self.g; k = v[0]
        if d < 0: return '_'
        if k == 'int': return str(v[1]) if g.p(0.8) else '%d' % (v[1] + 1)
        if k == 'bool': return str(v[1])
        if k == 'unit': return g.ch(['.', '.', '{}'])
        if k == 'str' or k == 'text':
            s = v[1]
            if g.p(0.4): return pm_src(('str', s))
            out, i = [], 0
            while i < len(s):
                if g.p(0.35): j = g.n(i + 1, len(s)); out.append(self.var()); i = j if out[-1] != '_' else i
                else:
                    if out and out[-1][0] == '$' and (s[i].isalnum() or s[i] == '_'): out.append(self.var()); i += 1
                    else: out.append(s[i]); i += 1
                if out[-1] == '_': out.pop(); out.append(s[i] if i < len(s) else ''); i += 1
            q = g.ch('"\'')
            return q + ''.join(out).replace('\n', '\\n') + q
        if k == 'list': return '[%s]' % ', '.join(self.items(v[1], d, False))
        if k == 'dict': return '(%s)' % ', '.join(self.named(v[1], d, False))
        if k == 'seq':
            if len(v[1]) == 1 and g.p(0.5): return self.shape(v[1][0], d)
            return '{%s}' % ' '.join(self.items(pm_norm(v[1]), d, True))
        n = v[1] if g.p(0.7) else g.ch(['_', self.var()])
        a = ''.join(' ' + x for x in self.named(v[2], d, True))
        if v[1] == 'br' or (not v[3] and g.p(0.4)): return '<%s%s%s>' % (n, a, '' if n == 'br' else '/')
        hs = pm_norm(v[3])
        c = self.pat(hs[0], d - 1, True) if len(hs) == 1 and g.p(0.6) else '{%s}' % ' '.join(self.items(hs, d - 1, True)) if g.p(0.7) else self.var()
        return '<%s%s>%s</%s>' % (n, a, c, n if n[0] not in '_$' and g.p(0.4) else '')
def prog_pm(g):
    out = [PRELUDE]
    for _ in range(g.n(1, 2)):
        v = pm_val(g, g.ch([1, 2, 2, 3])) if g.p(0.97) else pm_tag(g, 3)
        if v[0] == 'seq': v = ('seq', pm_norm(v[1]))
        bs = []
        for i in range(g.n(1, 3)):
            pm = PM(g, g.r.sample(NAMES, g.ch([1, 2, 3, 5, 8])), g.ch([0, 0, 0.05, 0.3]))
            p = pm.pat(v) if g.p(0.15) else pm.shape(v, 3)
            if g.p(0.1): p = '%s | %s' % (p, PM.shape(pm, v, 2))
            elif g.p(0.07): p = '%s & %s' % (p, PM.shape(pm, v, 2))
            names = list(dict.fromkeys(pm.used))
            body = '%d' % i if not names else g.pick((6, lambda: '[%d, %s]' % (i, ', '.join('$' + x for x in names))), (1, lambda: '%d' % i), (1, lambda: '[%d, $%s, $%s]' % (i, names[0], g.ch(NAMES))))
            if names and g.p(0.15): body = '@match [%s] {[$q, *$r] -> [%d, $q, $r, @list::len $r]}' % (', '.join('$' + x for x in names), i)
            bs.append(p + ' -> ' + body)
        if g.p(0.85): bs.append('_ -> none')
        if g.p(0.15): out.append('@let(%s=outer)...\n' % g.ch(NAMES))
        src = pm_src(v)
        if g.p(0.1): src = '@let(%s=%s) $%s' % (('a', src, 'a'))
        out.append(show('@match %s {%s}' % (src, ', '.join(bs))))
    return ''.join(out)

# -- short chains of elements around short contents
def prog_nest(g):
    C = lambda: g.pick((5, lambda: g.ch(['p', 'h1', 'h3', 'pre', 'b', 'span', 'i', 'em', 'a'])), (3, lambda: 'a'), (4, lambda: g.ch(BLOCK)), (4, lambda: g.ch(LISTY + PARTS)), (1.5, lambda: g.ch(RAWT)), (1, lambda: g.ch(ALLTAGS)))
    def leaf(): return g.pick((4, lambda: g.ch(['foo', 'x', '5', 'é'])), (3, lambda: ' '), (1, lambda: '\n'), (1, lambda: '\n\n'), (3, lambda: '<%s>y</>' % g.ch(['b', 'span', 'a', 'i'])), (2, lambda: '<div>z</>'), (1.5, lambda: '<p>z</>'), (1, lambda: '<hr>'), (1, lambda: '<br>'),
                              (2, lambda: '<%s></>' % C()), (1, lambda: '<li>z</>'), (1, lambda: '<tr><td>z</></>'), (0.7, lambda: '<td>z</>'), (1, lambda: '<a><%s>w</></>' % g.ch(['div', 'p', 'b', 'hr'])), (0.5, lambda: '<a>u<div>w</></>'), (0.5, lambda: '<script>1</>'), (0.5, lambda: '<!-- c -->'))
    def inside(d): return ''.join(chain(d - 1) if d > 0 and g.p(0.35) else leaf() for _ in range(g.ch([0, 1, 1, 2, 2, 3])))
    def chain(d):
        n = C()
        if n in VOID: return '<%s>' % n
        k = g.n(0, 9)
        if k == 0: return '@let(w={%s}) <%s>$w</>' % (inside(d), n)
        if k == 1: return '<%s>@list::join [%s]</>' % (n, ', '.join('{%s}' % leaf() for _ in range(g.n(0, 3))))
        if k == 2: return '<%s>{%s}%s</>' % (n, inside(d), leaf())
        if k == 3: return '<%s>@let(w=[%s]) $w</>' % (n, ', '.join(g.ch(['{%s}' % leaf(), 'foo', '5', '.', '<li>q</>', '<div>q</>']) for _ in range(g.n(0, 3))))
        return '<%s>%s</>' % (n, inside(d))
    out = []
    for _ in range(g.ch([1, 1, 1, 2])):
        k = g.n(0, 7)
        if k == 0: out.append('@let(f=@fn $x: %s -> $x) <%s>@f {%s}</>' % (g.ch(['block', 'inline', 'html', 'inline?', 'block?', 'html list']), C() if g.p(0.6) else 'div', inside(1)))
        elif k == 1: out.append('@list::len @list::html_nodes {%s}' % inside(2))
        elif k == 2: out.append(leaf() + chain(2) + leaf())
        else: out.append(chain(g.n(0, 2)))
    return g.ch(['', ' ', '\n\n', '\n']).join(out)

def prog_content(g):
    g.err = 0.01
    return g.content(3) if g.p(0.5) else g.tag(3, BLOCK + BLOCK_I + LISTY + ALLTAGS)

def prog_tree(g):
    """tags nested at random"""
    def t(d):
        n = g.ch(ALLTAGS)
        if n in VOID: return '<%s>' % n
        c = ''.join(g.pick((3, lambda: t(d - 1) if d > 0 else 'x'), (1, lambda: ' '), (1, lambda: 'foo'), (0.6, lambda: '\n'), (0.6, lambda: '\n\n'), (0.2, lambda: '@let(q=`z`) $q'), (0.2, lambda: '{%s}' % (t(d-1) if d > 0 else ''))) for _ in range(g.n(0, 3)))
        return '<%s>%s</>' % (n, c)
    return '\n\n'.join(t(2) + g.ch(['', '', t(1), ' x']) for _ in range(g.n(1, 2)))

def order_(sub):
    """definitions before their uses: those inside were numbered later"""
    return list(reversed(sub))
def prog_seq(g):
    """html sequences built in different ways, compared and taken apart"""
    out = [PRELUDE]
    def part(): return g.pick((3, lambda: g.ch(['foo', 'x', 'a b'])), (2, lambda: ' '), (1, lambda: '\n'), (2, lambda: '<b>x</b>'), (1, lambda: '<div>y</div>'), (1, lambda: '{}'), (1, lambda: '{ }'), (1, lambda: '$e{}'), (1, lambda: '$t{}'), (1, lambda: '$w{}'), (1, lambda: '{foo}'), (1, lambda: '&nbsp;'), (1, lambda: "''" if 0 else '\\ ' if 0 else '{<i/>}'))
    out.append("@let(e=., t=`foo`, w=` `, n=``` \n ```)...\n" if False else "@let(e=., t=`foo`, w=` `, z='')...\n")
    def h(): return '{' + ''.join(part() for _ in range(g.n(0, 5))) + '}'
    if g.p(0.5):
        sub = []
        def build(at, d, top=False):
            """the atoms, put together in one of many ways"""
            s, i = '', 0
            while i < len(at):
                j = i + g.ch([1, 1, 2, 3, 4]); x = at[i:j]; i = j; k = g.n(0, 7) if d > 0 else 0
                if k <= 2: y = ''.join(x)
                elif k == 3: y = '{%s}' % build(x, d - 1)
                elif k == 4: n = 's%d' % len(sub); sub.append(None); z = build(x, d - 1); sub[int(n[1:])] = '%s={%s}' % (n, z); y = '$%s{}' % n
                elif k == 5: y = '@list::join [%s]' % ', '.join('{%s}' % build(x[a:a + 2], d - 1) for a in range(0, len(x), 2)) + '{}'
                elif k == 6: y = '@f{%s}{}' % build(x, d - 1)
                else: y = '@match {%s} {$m -> $m}{}' % build(x, d - 1)
                s += y + g.ch(['', '', '', '{}', '$e{}'])
            return s
        at = [g.ch(['a', 'b', 'a', 'b', 'ab', '<i>c</i>', '<b/>', '&nbsp;', '5', '<i>a<b>d</b></i>'] + ([' '] if i else [])) for i in range(g.n(2, 6))]
        if g.p(0.3):
            q1 = g.r.sample(['id=`x`', 'class=`y`', 'title=`z`', 'data_k', 'href=`u`'], g.n(2, 3)); q2 = g.r.sample(q1, len(q1))
            if g.p(0.25): q2[0] = g.ch(['id=`x`', 'class=`x`', 'data_k'])
            if len({x.split('=')[0] for x in q2}) == len(q2):
                out.append(g.ch(['@match <i %s>t</i> {=<i %s>t</i> -> same, _ -> other}\n', '@list::contains(<i %s/>) [<b/>, <i %s/>]\n', '@match {a<i %s/>} {=@list::join [a, <i %s/>] -> same, _ -> other}\n']) % (' '.join(q1), ' '.join(q2)))
        at = [x for i, x in enumerate(at) if not (x == ' ' and (i == len(at) - 1 or at[i - 1] == ' '))]
        b1 = build(at, 2); b2 = build(at if g.p(0.8) else at[:g.n(0, len(at) - 1)] + ['b'], 2); c = ''.join(at)
        out.append('@fn f $c -> {$c}\n' + ''.join('@let(%s)...\n' % x for x in order_(sub)))
        out.append(g.ch(['@match {%s} {={%s} -> same, _ -> other}\n' % (b1, b2), '@show @list::len @list::html_nodes {%s}\n' % b1, '@list::contains({%s}) [{%s}]\n' % (b1, b2), '@show @list::html_nodes {%s}\n' % b1,
          '@match {%s} {{$p $q $r} -> {$p|$q|$r}, {$p $q} -> {$p|$q}, {$p} -> {$p}, _ -> none}\n' % b1, '@match <i>%s</i> {<i>{$p *$q}</i> -> [$p, $q, @list::len @list::html_nodes $q], _ -> none}\n' % b1,
          '@match <i>%s</i> {=<i>%s</i> -> same, _ -> other}\n' % (b1, b2), '@show [@html::is_empty {%s}, @html::is_whitespace {%s}]\n' % (b1, b1)]))
    for _ in range(g.n(1, 3)):
        k = g.n(0, 6)
        if k == 0: out.append('@match %s {=%s -> same, _ -> different}\n' % (h(), h()))
        elif k == 1: out.append('@show @list::html_nodes %s\n' % h())
        elif k == 2: out.append('@show @list::join(%s) [%s]\n' % (g.ch(['$e', '` `', '{}', '<br>', '`, `']), ', '.join(g.ch([h(), '$t', '$e', '$w', '5']) for _ in range(g.n(0, 4)))))
        elif k == 3: out.append('@show [@html::is_empty %s, @html::is_whitespace %s]\n' % (h(), h()))
        elif k == 4: out.append('@show %s\n' % h())
        elif k == 5: out.append('@let(q=%s) @match $q {{*$l} -> [@match $l {=$q -> same, _ -> other}], _ -> none}\n' % h())
        else: out.append('@list::contains(%s) [%s]\n' % (h(), ', '.join(h() for _ in range(3))))
    return ''.join(out)

def prog_render(g):
    out = []
    def text(): return ''.join(g.pick((3, lambda: g.ch(WORDS)), (2, lambda: ' '), (3, lambda: g.ch(ALPHABET)), (2, lambda: g.ch(PUNCT)), (1, lambda: '&%s;' % g.ch(ENTNAMES)), (1, lambda: '&#%d;' % g.ch([9, 10, 32, 34, 38, 39, 60, 62, 160, 233, 128, 55296, 1114112, 8364, 65533])), (0.5, lambda: '&#x%x;' % g.ch([9, 65, 160, 233, 8364, 32])), (0.5, lambda: '\\x%02x' % g.n(32, 126)), (0.5, lambda: '\\u%04x' % g.ch([233, 8364, 65, 55296]))) for _ in range(g.n(0, 6)))
    for _ in range(g.n(1, 4)):
        k = g.n(0, 7)
        if k == 0: out.append(text())
        elif k == 1: out.append('<%s %s="%s">%s</>' % (g.ch(INLINE + BLOCK_I), g.ch(['title', 'class', 'data_w', 'data_x', 'aria_y_z']), text().replace('"', '').replace('$', '').replace('\n', ' ').replace('`', '').replace('{', '').replace('}', ''), text()))
        elif k == 2: out.append('@let(v=%s) <p title=$v>$v</>' % g.verb(g.rawstr(0.9) or 'x'))
        elif k == 3: out.append('<%s%s>' % (g.ch(VOID), g.attrs()))
        elif k == 4: out.append('<%s%s>%s</>' % (g.ch(RAWT + ['pre', 'title', 'textarea']), g.attrs(), g.ch(['', '@let(v=%s) $v' % g.verb(g.rawstr(0.9) or 'y'), text()])))
        elif k == 5: out.append('@html::escape_html {%s}' % text())
        elif k == 6: out.append('@str::escape_html %s' % g.verb(g.rawstr(0.9) or 'x'))
        else: out.append(g.tag(2, ALLTAGS))
        out.append(g.ch(['\n', '\n\n', ' ', '']))
    return ''.join(out)

TOK = ['@let', '@fn', '@match', '@export', '@implicit', '@foo', '@b', '@list::len', '@typeof', '(', ')', '[', ']', '{', '}', '<', '>', '</', '/>', '</>', '<b>', '</b>', '<br>', '<a ', '<$x>', '<!--', '-->', '<!DOCTYPE html>', '$x', '$_x', '$y', '$_', '$x::a', '$x::0', '$x?::a', '::', '?::', ':', '?', '=', '==', '->', '...', '.', ',', '*', '**', '&', '|', '_', '`', '``', '```', '`c`', '```papyri\nx\n```', '"', "'", '"s"', "'t $x'", '12', '-3', '99999999999999999999', 'True', 'False', 'foo', 'x', 'int', 'list', '&amp;', '&lt', '&#65;', '&#xZZ;', '&nosuch;', '\\n', '\\x4', '\\x41', '\\u12', '\\', '\\$', '#', '# c\n', '##', '<# #>', '<#', '#>', '\n', '\n\n', ' ', ' ', ' ', '  ', '\t', 'é', '老', '\u00a0', '\u2003', '--', '---', '<->', '=>', '!=', '%', '+', ';', '~^', '%é']
RAW = list('%+~^;,.-=:*!?/<>|&()[]{}#@$') + ['/>', '</', '->', '%/', '+-', 'é']
def prog_soup(g):
    if g.p(0.2): return g.ch(['', '', '<b ', '{', '"', '[', '@f ']) + ''.join(g.ch(g.ch([RAW, ALPHABET])) for _ in range(g.n(2, 14))) + g.ch(['', '\n'])
    return ''.join(g.ch(TOK) + (' ' if g.p(0.3) else '') for _ in range(g.n(1, 18)))

def mutate(g, s, k=None):
    for _ in range(k or g.n(1, 3)):
        op = g.n(0, 6)
        i = g.n(0, len(s)); j = min(len(s), i + g.n(1, 6))
        if op == 0: s = s[:i] + s[j:]
        elif op == 1: s = s[:i] + g.ch(TOK) + s[i:]
        elif op == 2: s = s[:i] + g.ch(ALPHABET) + s[i:]
        elif op == 3: s = s[:i] + s[i:j] + s[i:]
        elif op == 4 and s:
            i = g.n(0, len(s) - 1); s = s[:i] + g.ch(TOK) + s[i+1:]
        elif op == 5:
            t = g.ch(SEEDS); a = g.n(0, len(t)); s = s[:i] + t[a:a + g.n(1, 12)] + s[i:]
        elif op == 6 and len(s) > 2:
            a, b = sorted((g.n(0, len(s) - 1), g.n(0, len(s) - 1))); s = s[:a] + s[b] + s[a+1:b] + s[a] + s[b+1:] if a < b else s
    return s
def prog_mutant(g):
    f = g.ch([lambda: g.ch(SEEDS), lambda: g.ch(SEEDS), lambda: prog_scope(g), lambda: prog_call(g), lambda: prog_match(g), lambda: g.content(2), lambda: prog_types(g)])
    return mutate(g, f())
def prog_seeds2(g): return g.ch(SEEDS) + g.ch(['\n', '\n\n', ' ', '']) + g.ch(SEEDS)

def prog_list(g):
    out = [PRELUDE]
    g.err = 0.01
    def L(): return g.pick((3, lambda: '[%s]' % ', '.join(g.intlit() for _ in range(g.n(0, 6)))), (2, lambda: '[%s]' % ', '.join(g.ch(['foo', 'bar', '`a b`', '`B`', "''", '`é`', 'a', 'z']) for _ in range(g.n(0, 6)))), (2, lambda: g.e_list(2)), (1, lambda: '@list::slice(%d, %d) [1, 2, 3, 4, 5]' % (g.n(-6, 6), g.n(-6, 6))))
    def calls():
        n = g.n(2, 8); xs = [g.ch([str(i), str(i), '`w%d`' % i, '[%d]' % i, '.', '`w1`', '2']) for i in range(n)]
        ok = lambda: g.ch([xs[g.n(0, n - 1)], str(g.n(0, 9)), '`w%d`' % g.n(0, n)])
        A, B = ok(), ok()
        A, B = [x if x != '.' else '0' for x in (A, B)]
        f = g.ch(['find', 'find', 'any', 'all', 'filter', 'map', 'sorted'])
        y, n_ = ('False', 'True') if f == 'all' else ('True', 'False')
        if f == 'sorted': y, n_ = g.ch([('a', 'b'), ('2', '1'), ('1', '1'), ('x', '1')])
        bad = g.ch(['@raise `late`', '@raise `late`', 'x', '.', '{}', '$nosuch', '[True]', n_, y])
        br = ['=%s -> %s' % (A, y), '=%s -> %s' % (B, bad)]
        if g.p(0.5): br.reverse()
        fn = '@fn $q -> @let(u=@str::unique_id cb) @match $q {%s, _ -> %s}' % (', '.join(br), n_)
        if g.p(0.2): fn = '@fn $q -> {%s}' % fn[9:] if f == 'map' else fn
        return '@show @list::%s(%s%s%s) [%s]\n@str::unique_id cb\n' % (f, 'key=' if f == 'sorted' else '', fn, ', reversed=True' if f == 'sorted' and g.p(0.4) else '', ', '.join(xs))
    if g.p(0.2): out.append(calls())
    def F(): return g.ch(['@fn $q -> @match $q {_: int -> True, _ -> False}', '@fn $q -> @match $q {1 -> True, 2 -> False, `foo` -> True, _ -> False}', '@fn $q -> [$q, $q]', '@fn $q -> @str::from $q', '$typeof', '@fn $q -> .', '@fn $q -> $q', '@fn $q: int -> @int::negate $q', '@fn $q -> @list::len $q', '@fn $q: int -> @int::add($q, 10).', '@fn $q -> @match $q {1 -> 5, 2 -> 5, 3 -> 0, _ -> 9}', '@fn $q: str -> @str::len $q'])
    for _ in range(g.n(1, 3)):
        l = L()
        d = g.e_dict(1)
        e = g.pick((2, lambda: '@list::slice(%s) %s' % (', '.join(str(g.ch([g.n(-6, 6), g.n(-3, 3), 2**40, -2**40])) for _ in range(g.n(1, 2))), l)),
          (1, lambda: '@list::reversed ' + l), (1, lambda: '@list::flat ' + l), (1, lambda: '@list::len ' + l), (1, lambda: '@list::is_empty ' + l),
          (2, lambda: '@list::sorted%s %s' % (g.ch(['', '(reversed=True)', '(key=%s)' % F(), '(key=%s, reversed=True)' % F(), '(reversed=False)']), l)),
          (1, lambda: '@list::%s(%s) %s' % (g.ch(['all', 'any', 'find', 'filter', 'map']), F(), l)), (2, lambda: '@list::%s(%s) %s' % (g.ch(['all', 'any', 'find', 'filter', 'map']), F(), l)),
          (1, lambda: '@list::filter ' + l), (1, lambda: '@list::contains(%s) %s' % (g.ch([g.intlit(), 'foo', '[1]', '.', g.e_any(1)]), l)),
          (1, lambda: '@list::enumerate%s %s' % (g.ch(['', '(from=%s)' % g.intlit()]), l)), (1, lambda: '@list::get(%s) %s' % (g.n(-4, 4), l)),
          (1, lambda: '@let(w=%s) $w::%d' % (l, g.n(-4, 4))), (1, lambda: '@let(w=%s) [$w::0, *$w, $w]' % l), (1, lambda: '@list::join%s %s' % (g.ch(['', '(`, `)', '(<br>)', "('')"]), l)),
          (1, lambda: '@let(w=%s) @list::slice(%d) @list::slice(%d, %d) $w' % (l, g.n(-3, 3), g.n(-3, 3), g.n(-3, 4))),
          (1, lambda: '@let(w=%s) @w::%s' % (l, g.ch(['len.', 'is_empty.', 'slice(1).', 'slice(0, -1).', 'sorted.', 'flat.', 'map(%s).' % F(), 'enumerate.', 'join(`-`).', 'contains(1).', 'get(0).', 'reversed.', 'any(%s).' % F()]))),
          (1.5, lambda: '@dict::%s %s' % (g.ch(['keys', 'values', 'items', 'len', 'is_empty']), d)), (1, lambda: '@dict::get(%s) %s' % (g.ch(NAMES), d)),
          (1, lambda: '@let(w=%s) $w::%s' % (d, g.ch(NAMES))), (1, lambda: '@let(w=%s) @dict::new(zz=1, **$w).' % d),
          (1, lambda: '@let(w=%s) @match $w {=%s -> same, _ -> other}' % (l, L())),
          (1, lambda: '@match %s {=%s -> same, (a=$p, **$q) -> [$p, $q], _ -> other}' % (d, g.e_dict(1))))
        out.append(show(e))
    return ''.join(out)

def prog_str(g):
    out = [PRELUDE]
    S = lambda: g.pick((3, lambda: g.verb(g.rawstr(0.25) or 'x')), (2, lambda: g.ch(['`foo bar`', '`a,b,,c`', '`  x `', '`aXbX`', '`ÀÉ`', '`ß`', '`İ`', '`a.b`', '`abcabc`', "''", '` `', '`foo123`', '`x=1, y=22`'])), (1, lambda: '`%s`' % ''.join(g.ch('abcxyz01 ') for _ in range(g.n(0, 10))) if True else ''))
    def S2():
        s = S()
        return "''" if s == '``' else s
    for _ in range(g.n(1, 4)):
        k = g.n(0, 9)
        if k == 0: e = '@str::%s %s' % (g.ch(['upper', 'lower', 'trim', 'len', 'is_empty', 'is_whitespace', 'escape_html', 'from']), S2())
        elif k == 1: e = '@str::%s(%s, %s).' % (g.ch(['starts_with', 'ends_with']), S2(), g.ch(['`foo`', '`x`', "''", '` `', S2()]))
        elif k == 2: e = '@str::split(%s) %s' % (g.ch(['`,`', '` `', "''", '`X`', '`ab`', S2()]), S2())
        elif k == 3 and g.p(0.6):
            ns = g.r.sample(['p', 'q', 'aB', 'N', 'n_1', 'Zz', 'len', 'x2'], g.n(1, 4)); rx, tx, mode = '', '', g.n(0, 3)
            for x in ns:
                a, b = g.ch([('x+', 'xx'), ('[0-9]', '7'), ('\\w+?', 'ab'), ('a|b', 'b'), ('c?', ''), ('c?', 'c'), ('\u00e9', '\u00e9'), ('.', '-'), ('[a-c]*', 'abc')])
                rx += ('(?P<%s>%s)' % (x, a) if mode < 2 or mode == 2 and g.p(0.7) else '(%s)' % a) + g.ch(['', '', '?']) * (a not in ('c?', '[a-c]*')) + g.ch(['', '', ',', ' '])
                tx += b + (rx[-1] if rx[-1] in ', ' else '')
            tx = g.ch(['', '', 'k', ' ']) + tx + g.ch(['', '', '!', tx])
            e = '@let(r=@regex::compile `%s`, t=`%s`) %s' % (rx, tx or 'x', g.ch(['@regex::find($r) $t', '@regex::find($r) $t', '@regex::find_all($r) $t', '@match @regex::find($r) $t {(%s=$z, **$y) -> [$z, $y], _: list -> [$l], _ -> $_}' % ns[0] if 0 else '@match @regex::find($r) $t {(%s=$z, **$y) -> [$z, $y], [$z, *$y] -> [2, $z, $y], $z -> [3, $z]}' % g.ch(ns), '@match @regex::find($r) $t {_: dict -> True, _: list -> 1, _: str -> s, _ -> no}', '@match @regex::find_all($r) $t {[$z, *_] -> $z, _ -> none}']))
        elif k in (3, 4): e = '@regex::%s(@regex::compile `%s`) %s' % (g.ch(['find', 'find_all', 'split', 'count', 'test']), g.regex(), S2())
        elif k == 5: e = '@let(a=%s, b=%s, n=%s) %s' % (S2(), S2(), g.intlit(), '"%s"' % ''.join(g.ch(['$a', '$b', '$n', ' ', 'x', '-', '{}', '{ }', '\\n', '&lt;', ' $a ', '. ']) for _ in range(g.n(0, 5))))
        elif k == 6: e = '@match %s {%s -> [%s], _ -> none}' % (S2(), *((lambda p: (p, ''))(g.p_str(2))))
        elif k == 7:
            g.push(); ps = [g.p_str(2) for _ in range(2)]; ns = [[x] for x, _ in g.scopes[-1]]; g.pop()
            e = '@match %s {%s}' % (S2(), ', '.join('%s -> [%s]' % (p, ', '.join('$' + c for c in [x[0] for x in ns] if '$' + c in p)) for p in ps) + ', _ -> none')
        elif k == 8: e = '@let(w=%s) @w::%s' % (S2(), g.ch(['upper.', 'lower.', 'trim.', 'len.', 'split(` `).', 'is_empty.', 'escape_html.', 'starts_with(`f`).', 'ends_with(`o`).', 'is_whitespace.', 'unique_id.', 'unique_id(max_length=3).']))
        else: e = '@int::parse %s' % g.ch(['`12`', '`-7`', '`+3`', '`1 `', '`9223372036854775807`', '`9223372036854775808`', '`-9223372036854775808`', '`-0`', '`--1`', '`é`', "''", '`0x1`', '`1_0`'])
        out.append(show(e))
    return ''.join(out)

def prog_uid(g):
    out = [PRELUDE]
    if g.p(0.35):
        b = g.ch(['foo', '`a b`', '`Éx`', '`x_1`', 'ab', '`x`', '`foo_9`'])
        m = g.ch(['', '(max_length=%d)' % g.n(1, 7)])
        return PRELUDE + ('@fn u $q -> @str::unique_id%s %s\n@show @list::map($u) [%s]\n' % (m, b if g.p(0.7) else '"$q"', ', '.join(g.ch([b, b, b, '`foo`']) for _ in range(g.ch([5, 12, 25])))))
    base = ['foo', '`Foo`', '`foo bar`', '`foo_1`', '`foo_2`', '`foo_bar`', '`FOO BAR!`', '`1x`', '`é`', '`café`', '`老虎`', '`\ue000`', '`\ue001\ue002`', '`x\ue007\ue008y`', '` `', "''", '`_`', '`a`', '`-`', '`ß`', '`a-b_c`', '`foobarbaz`', '`foobarqux`', '`id`', '`id_1`', '`x`']
    for _ in range(g.n(2, 8)):
        out.append('@str::unique_id%s %s\n' % (g.ch(['', '', '', '(max_length=%d)' % g.n(1, 8), '(max_length=%d)' % g.ch([0, -1, 1, 2, 3])]), g.ch(base) if not g.p(0.2) else g.verb(g.rawstr(0.3) or 'x')))
    return ''.join(out)

CODE = ['foo', 'x = 1', '@let(x=1) {$x}', '<b>Foo</b>', '# comment', '(a [b {c}])', '`q`', "'str'", '"dq $x"', 'https://x.y/z', '# https://a.b', '  indented', '\tTab', '', 'if (x) { y(); }', '&lt;', '@foo(1, 2).', '@match $x {_ -> y}', '<!-- c -->', 'a & b', '@fn f $x: int -> $x', 'True', '...', ')]}', '({[', 'é老', '@foo # http://u.v w', '"unterminated', '<a href="x">']
def prog_code(g):
    out = []
    if g.p(0.2): out.append('@implicit(language=%s)...\n' % g.ch(['papyri', 'none', '`none`', '.']))
    for _ in range(g.n(1, 3)):
        ls = [g.ch(['', '', '  ', '    ', '\t']) + g.ch(CODE) for _ in range(g.n(1, 5))]
        body = '\n'.join(l.replace('`', "'") for l in ls)
        k = g.n(0, 5)
        if k == 0: out.append('`%s`' % (g.ch(CODE).replace('`', '') or 'x'))
        elif k == 1: out.append('```%s\n%s\n```' % (g.ch(['papyri', 'none', '', 'papyri', 'Papyri', 'nosuchlang']), body))
        elif k == 2: out.append('@code(language=%s, code_block=%s%s) ```%s%s```' % (g.ch(['papyri', 'none', '.']), g.ch(['True', 'False']), g.ch(['', ', first_line_no=%s' % g.intlit()]), g.ch(['', 'papyri\n', '\n']), body))
        elif k == 3: out.append('@code(language=papyri) `%s`' % (g.ch(CODE).replace('`', '') or 'x'))
        elif k == 4: out.append('@let(s=@code(language=papyri, code_block=True) ```\n%s\n```) @show @list::html_nodes $s' % body if False else '<pre>@code(language=papyri, code_block=True%s) ```\n%s\n```</pre>' % (g.ch(['', ', first_line_no=%d' % g.n(0, 20)]), body))
        else: out.append('@implicit(language=`%s`) {`%s`}' % (g.ch(['papyri', 'none']), g.ch(CODE).replace('`', '') or 'x'))
        out.append(g.ch(['\n\n', '\n', ' ']))
    return ''.join(out)

def prog_text(g):
    return g.ch([prog_content, prog_tree, prog_render, prog_code])(g)

def prog_std(g):
    """the standard library"""
    out = [PRELUDE] if g.p(0.5) else []
    I = lambda: '{' + g.inline(1) + '}'
    for _ in range(g.n(1, 4)):
        out.append(g.pick(
          (3, lambda: '@%s %s' % (g.ch(['b', 'blockquote', 'bold', 'cite', 'dfn', 'emph', 'i', 'kbd', 'quote', 'samp', 'span', 'sub', 'sup', 'strikethrough', 'underline']), g.ch([I(), 'foo', '`x<y`', '<b>x</b>', '<div>x</div>', '.', '5']))),
          (1, lambda: '@blockquote(cite=%s) %s' % (g.ch(['`u`', '.', '5']), g.ch(['<p>x</p>', 'foo', I()]))), (1, lambda: '@href(%s) %s' % (g.ch(['`a&b`', 'x']), I())),
          (1, lambda: '@image%s %s' % (g.ch(['', '(alt=`a"b`)', '(alt=.)', '(`x`)']), g.ch(['`u.png`', 'foo', '5']))),
          (2, lambda: '@%s %s' % (g.ch(['class(`k`)', 'style(`k: v;`)', 'attributes(id=`q`)', 'attributes(id=., class=`w`)', 'class', 'attributes']), g.ch(['<b>x</b>', '<b class=`o`>x</b>', '<b style=`o` id=z>x</b>', '<br>', 'foo', '{<i>x</i>}', '<p class>x</p>']))),
          (1, lambda: '@show @typeof %s' % g.e_any(1)),
          (2, lambda: '@%s %s' % (g.ch(['numbered', 'footnote', 'list::html_nodes', 'html::tag_name', 'inline::from', 'block::from']), g.ch(['<ul>[a, b]</ul>', '<ul class=`k` id=z>[<b>x</b>, {y}]</ul>', '<ul>[]</ul>', '{x}', '<ul><li>x</li></ul>', '<ol>[a]</ol>', '<b>x</b>', 'foo', '<div>{y}</div>', '{a <b>c</b>}', '5']))),
          (2, lambda: g.ch(STDCALLS)), (1, lambda: '@' + g.ch(STDNAMES) + g.ch(['.', ' ' + g.e_any(1), '(%s) %s' % (g.e_any(0), g.e_any(0)), '(%s=%s) %s' % (g.ch(STDPARAMS), g.e_any(0), g.e_any(1))]))) + g.ch(['\n', '\n\n', ' ']))
    return ''.join(out)
import re as _re
STD = json.load(open(V + '/spec/stdlib.json'))[0]
STDNAMES = _re.findall(r'@export @fn (\w+)', STD)
STDPARAMS = sorted(set(_re.findall(r'\$([a-z]\w*)', STD)))
STDCALLS = ['@page(title=`T`) {Hello}', '@page(title=`T`, web_root=`/r/`, header=<b>h</b>, footer={f}) <p>x</p>', '@page(title=`T`, head=<link rel=`x`>) {a\n\nb}']

# -- signatures, with calls that satisfy them in stages, exactly or almost
def prog_bind(g):
    out = [PRELUDE]
    T = ['int', 'str', 'bool', 'int list', 'any', 'str?', 'html', 'inline', None, 'int?', 'dict', 'function', 'str list', 'block']
    V = {'int': ['1', '2', '7'], 'str': ['`s`', 'foo', '5', '"t"'], 'bool': ['True', 'False'], 'int list': ['[1, 2]', '[]'], 'any': ['`v`', '3', '.', '[4]'], 'str?': ['`o`', '.'], 'html': ['<b>h</>', '{p}', '5'], 'inline': ['<i>n</>', 'foo'],
         None: ['8', '`w`'], 'int?': ['9', '.'], 'dict': ['@dict::new(k=1).'], 'function': ['$typeof', '@fn $q -> [$q]'], 'str list': ['[`a`, b]', '[5]'], 'block': ['<div>d</>', 'foo', '<p>e</>']}
    BAD = {'int': '`bad`', 'str': '[1]', 'bool': '1', 'int list': '[`x`]', 'str?': '[1]', 'html': '$typeof', 'inline': '<div>z</>', 'int?': '`bad`', 'dict': '[1]', 'function': '1', 'str list': '[[1]]', 'block': '$typeof'}
    val = lambda t: g.ch(V[t])
    for fi in range(g.ch([1, 1, 2])):
        pos, o = [], False
        for x in ['_a', '_b', '_c'][:g.ch([0, 1, 1, 2, 2, 3])]:
            t = g.ch(T); o = o or g.p(0.3)
            pos.append((x, t, g.ch(['?', '=']) if o else ''))
        sp = g.ch([None, 'int list', 'list', 'str list']) if g.p(0.3) else 0
        named, o = [], False
        for x in ['x', 'y', 'z'][:g.ch([0, 0, 1, 2, 2, 3])]:
            t = g.ch(T); m = g.ch(['', '', '?', '=', 'i', 'i', 'i', 'i?']) if g.p(0.97) else 'i='
            if o and g.p(0.95): m = {'': '=', 'i': 'i?'}.get(m, m)
            o = o or m in ('?', '=')
            named.append((x, t, m))
        ns = g.ch([None, 'int dict', 'dict']) if g.p(0.25) else 0
        con = g.ch([0, 0] + T)
        def par(x, t, m):
            s = '$' + x + ('?' if '?' in m else '')
            if t or 'i' in m:
                u = (t or 'any')
                s += ': ' + ('@implicit ' if 'i' in m else '') + (u[:-1] if '?' in m and u.endswith('?') else u)
            return s + (' = ' + val(t) if '=' in m else '')
        items = [par(*q) for q in pos] + (['*$_r' + (': ' + sp if sp else '')] if sp != 0 else []) + [par(*q) for q in named] + (['**$kw' + (': ' + ns if ns else '')] if ns != 0 else [])
        names = [q[0] for q in pos] + (['_r'] if sp != 0 else []) + [q[0] for q in named] + (['kw'] if ns != 0 else [])
        sig = ('(%s)' % ', '.join(items) if items else '') + (' $cc' + (': ' + con if con else '') if con != 0 else '.' if items else ' .')
        if con != 0: names.append('cc')
        f = 'f%d' % fi
        out.append('@fn %s%s -> [%s]\n' % (f, sig if sig[0] in '( ' else ' ' + sig, ', '.join('$' + x for x in names)))
        for _ in range(g.n(1, 3)):
            P = []; full = True
            for x, t, m in pos:
                if m and g.p(0.35): full = False; break
                P.append(val(t))
            if sp != 0 and full:
                P += [g.ch({'int list': ['4', '5'], 'list': ['`l`', '6', '[]'], 'str list': ['`m`'], None: ['`l`', '6']}[sp]) for _ in range(g.n(0, 3))]
            N, imp = [], []
            for x, t, m in named:
                if 'i' in m and g.p(0.55): imp.append((x, val(t) if g.p(0.9) else BAD.get(t, '1'))); continue
                if m and m != 'i' and g.p(0.35): continue
                N.append((x, val(t)))
            if ns != 0: N += [(k, g.ch(['1', '2'] if ns == 'int dict' else ['1', '`d`'])) for k in g.r.sample(['k1', 'k2', 'k3'], g.n(0, 2))]
            C = val(con) if con != 0 else '.'
            # almost
            if g.p(0.35):
                k = g.n(0, 7)
                if k == 0 and P: P.pop(g.n(0, len(P) - 1))
                elif k == 1: P.insert(g.n(0, len(P)), g.ch(['1', '`extra`', '.']))
                elif k == 2 and N: N.pop(g.n(0, len(N) - 1))
                elif k == 3: N.insert(g.n(0, len(N)), (g.ch(['nosuch', 'x', 'cc', 'a', 'k1', 'y']), g.ch(['1', '`s`'])))
                elif k == 4 and P: i = g.n(0, min(len(P), max(1, len(pos))) - 1); P[i] = BAD.get(pos[i][1] if i < len(pos) else sp, '1')
                elif k == 5 and N: i = g.n(0, len(N) - 1); N[i] = (N[i][0], BAD.get(dict((x, t) for x, t, _ in named).get(N[i][0]), '[`q`]'))
                elif k == 6: C = g.ch(['.', '1', '{x}', BAD.get(con, '2') if con != 0 else '3'])
                elif imp: imp.pop()
            def argtext(ps, nv):
                ps = list(ps)
                if ps and g.p(0.2):
                    i = g.n(0, len(ps)); j = g.n(i, len(ps)); ps[i:j] = ['*[%s]' % ', '.join(ps[i:j])]
                nv = list(nv); g.r.shuffle(nv)
                if nv and g.p(0.2):
                    i = g.n(0, len(nv)); a, b = nv[:i], nv[i:]
                    it = ['%s=%s' % q for q in a] + ['**@dict::new(%s).' % ', '.join('%s=%s' % q for q in b)] if b else ['%s=%s' % q for q in a]
                else: it = ['%s=%s' % q for q in nv]
                if g.p(0.04): it.reverse(); return it + ps
                return ps + it
            def callwith(h, ps, nv, c):
                a = argtext(ps, nv)
                return '@%s(%s)%s' % (h, ', '.join(a), c if c == '.' else ' ' + c) if a or g.p(0.2) else '@%s%s' % (h, c if c == '.' else ' ' + c)
            k = g.ch([0, 0, 1, 1, 2])
            if k == 0: e = callwith(f, P, N, C)
            else:
                i = g.n(0, len(P)); N1 = [q for q in N if g.p(0.5)]; N2 = [q for q in N if q not in N1]
                if g.p(0.1) and N1: N2 = N2 + [N1[0]]
                c1 = '.' if g.p(0.8) or C == '.' else ' ' + C
                mk = lambda h, ps, nv, c: '@function::bind(%s)%s' % (', '.join(['$' + h] + argtext(ps, nv)), c)
                cl = C if c1 == '.' or g.p(0.3) else '.'
                if k == 1:
                    e = '@let(g=%s) %s' % (mk(f, P[:i], N1, c1), callwith('g', P[i:], N2, cl) if g.p(0.6) else '[%s, %s, %s]' % (callwith('g', P[i:], N2, cl), callwith('g', P[i:][::-1], N2, cl), callwith('g', P[i:], N2, cl)))
                else:
                    j = g.n(i, len(P)); N3 = [q for q in N2 if g.p(0.5)]; N4 = [q for q in N2 if q not in N3]
                    e = '@let(g=%s) @let(h=%s) [%s, %s]' % (mk(f, P[:i], N1, c1), mk('g', P[i:j], N3, '.'), callwith('h', P[j:], N4, cl), callwith('g', P[i:], N2, cl))
            e = '@show ' + e
            for x, v in imp:
                e = '@%s(%s=%s) %s' % ('implicit' if g.p(0.9) else 'let', x, v, e if g.p(0.85) else '@%s(%s=`inner`) %s' % (g.ch(['let', 'implicit']), x, e))
            if g.p(0.08): e = '@let(w=@fn $q -> {%s}) @w 1' % e
            out.append(e + '\n')
    return ''.join(out)

# -- programs in which single tokens, or the space between them, are changed
RETOK = None
def toks(s):
    global RETOK
    if RETOK is None: RETOK = _re.compile(r'```|``|`|\s+|[A-Za-z_]\w*|\d+|->|::|\?::|\.\.\.|\*\*|</|/>|\\.|.', _re.S)
    return RETOK.findall(s)
SIMPLE = ['scope', 'call', 'match', 'pm', 'nest', 'bind', 'types', 'list', 'str', 'render', 'code', 'std', 'content']
def small(g):
    k = g.ch(SIMPLE + ['seed'] * 6)
    return g.ch(SEEDS) if k == 'seed' else globals()['prog_' + k](g)
SPACE = [' ', '\n', '  ', '\n\n', ' # c\n', '\t', '<# c #>', '\u00a0']
def prog_gmut(g):
    s = small(g); pre = ''
    if s.startswith(PRELUDE): pre, s = PRELUDE, s[len(PRELUDE):]
    t = toks(s)
    for _ in range(g.ch([1, 1, 1, 1, 2, 3])):
        if not t: break
        i = g.n(0, len(t) - 1); k = g.n(0, 7)
        if k == 0: t.pop(i)
        elif k == 1: t.insert(i, t[i])
        elif k == 2 and i + 1 < len(t): t[i], t[i+1] = t[i+1], t[i]
        elif k == 3: t.insert(i, g.ch(TOK))
        elif k == 4: t[i] = g.ch(TOK)
        elif k == 5: t[i] = g.ch(t)
        elif k == 6: t.insert(i, g.ch(t))
        else: t.insert(i, g.ch(SPACE))
    return pre + ''.join(t)
def prog_space(g):
    s = small(g); pre = ''
    if s.startswith(PRELUDE): pre, s = PRELUDE, s[len(PRELUDE):]
    t = toks(s); q = g.ch([0.05, 0.2, 0.5]); out = []; r = g.p(0.3)
    for x in t:
        if r and x.isspace() and g.p(q): out.append(g.ch(['', ' ', '\n'])); continue
        out.append(x)
        if not x.isspace() and g.p(q if x in ',([=->:|&?' else q / 12): out.append(g.pick((6, lambda: ' '), (2, lambda: '\n'), (1, lambda: ' # c\n'), (0.5, lambda: '\n\n'), (1, lambda: '<# c #>'), (0.5, lambda: '\t')))
    return pre + ''.join(out)

# -- scopes, with the generator keeping track of what is visible
class Scp:
    def __init__(self, g): self.g, self.k = g, 0
    NM = ['a', 'b', 'c', 'd', 'f', 'g']
    def lit(self):
        self.k += 1
        return self.g.ch(['%d', '%d', '`v%d`', 'w%d']) % self.k
    def look(self, env, n):
        for fr in reversed(env):
            if n in fr: return fr[n]
    def names(self, env, kind):
        return [n for n in self.NM if (self.look(env, n) or (None,))[0] == kind]
    def name(self, env, kind='v'):
        ns = self.names(env, kind)
        if not ns or self.g.p(0.025): return self.g.ch(self.NM)
        return self.g.ch(ns)
    def val(self, env):
        g = self.g
        return g.pick((5, self.lit), (2, lambda: '$' + self.name(env) if self.names(env, 'v') else self.lit()), (1, lambda: '"%s-$%s"' % (self.g.ch('xyz'), self.name(env)) if self.names(env, 'v') else self.lit()))
    def use(self, env):
        g = self.g
        if not self.names(env, 'v') and g.p(0.9): return self.lit()
        return g.pick((4, lambda: '($%s)' % self.name(env)), (2, lambda: '($%s $%s)' % (self.name(env), self.name(env))), (1, lambda: '@str::from $%s' % self.name(env)), (0.5, lambda: '<i x="$%s">$%s</>' % (self.name(env), self.name(env))))
    def fnlit(self, env, d, name=''):
        """-> text, kind"""
        g = self.g; fr = {}; ps = []; req = []; opt = []; imp = []
        for n in g.r.sample(self.NM, g.ch([0, 0, 1, 1, 2])):
            k = g.n(0, 4)
            if k == 0: ps.append('$_%s' % n); req.append('_' + n); fr['_' + n] = ('v',)
            elif k == 1: ps.append('$%s' % n); req.append(n); fr[n] = ('v',)
            elif k == 2: ps.append('$%s = %s' % (n, self.val(env))); opt.append(n); fr[n] = ('v',)
            elif k == 3: ps.append('$%s: @implicit any' % n); imp.append(n); fr[n] = ('v',)
            else: ps.append('$%s?: @implicit any' % n); imp.append(n); fr[n] = ('v',)
        ps.sort(key=lambda x: (0 if x.startswith('$_') else 2 if '=' in x or '?' in x else 1))
        req.sort(key=lambda x: not x.startswith('_'))
        c = g.ch(self.NM) if g.p(0.5) else None
        if c and c not in fr: fr[c] = ('v',)
        else: c = None
        kind = ('f', req, opt, imp, c is not None, None)
        e = env + [fr]
        if d > 0 and g.p(0.15):
            t, k2 = self.fnlit(e, d - 1); body = t; kind = ('f', req, opt, imp, c is not None, k2)
        else: body = '{%s}' % self.body(d - 1, e)
        txt = '@fn %s%s -> %s' % (name, ('(%s)' % ', '.join(ps) if ps else '' if c else ' ' if name else '') + (' $' + c if c else '.'), body)
        return txt.replace('@fn  ', '@fn '), kind
    def call(self, env, n, kind, d=1):
        g = self.g; _, req, opt, imp, c, res = kind
        a = [self.val(env) if x.startswith('_') else '%s=%s' % (x, self.val(env)) for x in req]
        a += ['%s=%s' % (x, self.val(env)) for x in opt if g.p(0.5)] + ['%s=%s' % (x, self.val(env)) for x in imp if g.p(0.25)]
        if g.p(0.04) and a: a.pop()
        t = '@%s%s%s' % (n, '(%s)' % ', '.join(a) if a else '', (' ' + (self.val(env) if d <= 0 or g.p(0.6) else '{%s}' % self.body(d - 1, env))) if c else '.')
        for x in imp:
            if g.p(0.6): t = '@%s(%s=%s) %s' % (g.ch(['implicit', 'implicit', 'implicit', 'let']), x, self.lit(), t)
        if res:
            m = g.ch(self.NM); e = env + [{m: res}]
            return '@let(%s=%s) {%s}' % (m, t, self.call(e, m, res, d - 1) + (' ' + self.call(e, m, res, d - 1) if g.p(0.4) else ''))
        return t
    def decls(self, env, k):
        ns = self.g.r.sample(self.NM, k); fr = {}; out = []
        for n in ns:
            if self.g.p(0.2): t, kd = self.fnlit(env, 1); fr[n] = kd; out.append('%s=%s' % (n, t))
            else: fr[n] = ('v',); out.append('%s=%s' % (n, self.val(env)))
        return ', '.join(out), fr
    def stmt(self, d, env):
        g = self.g
        def let():
            t, fr = self.decls(env, g.ch([1, 1, 2]))
            if g.p(0.3) and (g.p(0.1) or not set(fr) & set(env[-1])): env[-1].update(fr); return '@%s(%s)... %s' % (g.ch(['let', 'let', 'implicit']), t, self.use(env))
            return '@%s(%s) {%s}' % (g.ch(['let', 'let', 'implicit']), t, self.body(d - 1, env + [fr]))
        def fn():
            n = g.ch(self.NM); t, kd = self.fnlit(env, d - 1, n); env[-1][n] = kd; return t + '\n'
        def call():
            fs = self.names(env, 'f')
            if not fs: return self.use(env)
            n = g.ch(fs); return self.call(env, n, self.look(env, n), d - 1)
        def match():
            v, w = self.val(env), self.val(env); x, y, z = g.r.sample(self.NM, 3); out = []
            bs = g.r.sample([('[$%s, `no`]' % x, [x]), ('[$%s, $%s]' % (x, y), [x, y]), ('[$%s, *$_r]' % x, [x]), ('[_, $%s] & [$%s, `no`]' % (x, y), [x, y]), ('[$%s, `no`] | [_, $%s]' % (x, y), [y]), ('[*$_r]', []), ('$%s: int' % z, [z]), ('[_: $%s, $%s]' % (z, x), [z, x]), ('[=$%s, $%s]' % (self.name(env), y), [y])], g.n(1, 3))
            for p, ns in bs: out.append('%s -> {%s}' % (p, self.body(d - 1, env + [{n: ('v',) for n in ns}])))
            if g.p(0.9): out.append('_ -> {%s}' % self.body(d - 1, env + [{}]))
            return '@match [%s, %s] {%s}' % (v, w, ', '.join(out))
        def group(): return g.ch(['{%s}', '<b>%s</>', '<i>%s</>']) % self.body(d - 1, env + [{}])
        def cb():
            n = g.ch(self.NM); e = env + [{n: ('v',)}]
            return '@list::join @list::map(@fn $%s -> {%s}) [%s, %s]' % (n, self.body(d - 1, e), self.val(env), self.val(env))
        def export():
            n = g.ch(self.NM); env[-1][n] = ('v',)
            return '@export @let(%s=%s)...' % (n, self.val(env))
        def again():
            # one name declared twice in a frame, in different ways, around a function that takes it implicitly
            x, f = g.r.sample(self.NM, 2); k = g.ch(['implicit', 'implicit', 'let', 'fn'])
            one = '@fn %s . -> {%s}\n' % (x, self.lit()) if k == 'fn' else '@%s(%s=%s)...\n' % (k, x, self.val(env))
            de = '@fn %s($%s%s: @implicit any) . -> {@typeof $%s}\n' % (f, x, g.ch(['', '?']), x)
            k2 = g.ch(['fn', 'fn', 'exp', 'expi', 'expfn', 'implicit'])
            two = '@fn %s . -> {%s}\n' % (x, self.lit()) if k2 == 'fn' else '@export @fn %s . -> {}\n' % x if k2 == 'expfn' else '@export(%s=%s).\n' % (x, self.val(env)) if k2 == 'exp' else '@export @implicit(%s=%s)...\n' % (x, self.val(env)) if k2 == 'expi' else '@implicit(%s=%s)...\n' % (x, self.val(env))
            return g.ch([one + de + two, de + one + two, one + two + de]) + '@%s.' % f
        if d <= 0: return self.use(env)
        return g.pick((4, lambda: self.use(env)), (4, let), (3, fn), (5, call), (2, match), (1, group), (1, cb), (0.2, export), (0.4, again))
    def body(self, d, env):
        env = env[:-1] + [dict(env[-1])] if env else [{}]
        return self.g.ch([' ', '\n', ';']).join(self.stmt(d, env) for _ in range(self.g.ch([1, 1, 2, 3])))
def prog_scp(g):
    sc = Scp(g); env = [{}]; out = []
    if g.p(0.8): t, fr = sc.decls(env, g.n(1, 3)); env[0].update(fr); out.append('@%s(%s)...' % (g.ch(['let', 'let', 'implicit']), t))
    for _ in range(g.n(2, 5)): out.append(sc.stmt(g.n(1, 3), env))
    return g.ch(['\n', '\n', '\n\n']).join(out)

# -- types, with values that belong to them, exactly or almost
BASE = {'int': ['0', '5', '-3', '9223372036854775807'], 'bool': ['True', 'False'], 'str': ['`s`', 'foo', '"t"', "''", '` `', '`a\nb`'.replace('\n', ' ')], 'none': ['.', '{}'], 'inline': ['<b>x</>', '{a <i>b</>}', '{ }', '<a><b>q</></>', '<br>', '<span>u</>'],
        'block': ['<div>y</>', '<p>z</>', '<hr>', '<a><div>w</></>', '{<p>a</><p>b</>}', '<ul><li>k</></>', '{a<div>y</>}', '<a>{<i>x</><hr>}</>'], 'function': ['$typeof', '@fn $q -> $q'], 'regex': ['@regex::compile `x`']}
def tv_type(g, d=2):
    t = g.ch(['int', 'bool', 'str', 'none', 'inline', 'block', 'html', 'function', 'regex', 'any', 'int', 'str', 'block', 'inline'])
    for _ in range(g.ch([0, 0, 1, 1, 2, 2, 3]) if d else 0): t = (t, g.ch(['list', 'dict', '?', 'list']))
    return t
def tv_str(t): return t if isinstance(t, str) else tv_str(t[0]) + (t[1] if t[1] == '?' else ' ' + t[1])
def tv_val(g, t, miss):
    if g.p(miss): t = tv_type(g, g.n(0, 1))
    if isinstance(t, str):
        if t == 'any': t = g.ch(list(BASE))
        elif t == 'html': t = g.ch(['inline', 'block', 'str', 'int', 'none'])
        elif t in ('inline', 'block') and g.p(0.3): t = g.ch(['str', 'int', 'inline', 'none', 'listh', 'dict'])
        elif t == 'str' and g.p(0.15): t = g.ch(['int', 'none', 'bool'])
        elif t == 'int' and g.p(0.1): return g.ch(['`5`', '5'])
        if t == 'listh': return '[%s]' % ', '.join(tv_val(g, g.ch(['inline', 'str', 'block', 'int', 'none', ('str', 'list')]), 0) for _ in range(g.n(0, 3)))
        if t == 'dict': return '@dict::new(%s).' % ', '.join('%s=%s' % (k, tv_val(g, g.ch(['str', 'int', 'inline', 'none']), 0)) for k in ['k', 'l'][:g.n(0, 2)])
        return g.ch(BASE[t])
    t, m = t
    if m == '?': return '.' if g.p(0.3) else tv_val(g, t, miss)
    if m == 'list': return '[%s]' % ', '.join(tv_val(g, t, miss / 2) for _ in range(g.ch([0, 1, 1, 2, 3])))
    return '@dict::new(%s).' % ', '.join('%s=%s' % (k, tv_val(g, t, miss / 2)) for k in ['k', 'l', 'm'][:g.ch([0, 1, 1, 2, 3])])
def tv_near(g, t):
    """another type, not far away"""
    k = g.n(0, 4)
    if isinstance(t, str) or k == 0:
        if k == 1: return (t, g.ch(['?', 'list', 'dict']))
        return g.ch(['html', 'any', 'str', 'int', 'inline', 'block', 'none']) if isinstance(t, str) else t[0]
    if k == 1: return (t, '?')
    if k == 2: return (t[0], g.ch(['list', 'dict', '?']))
    return (tv_near(g, t[0]), t[1])
def prog_tv(g):
    out = [PRELUDE]
    for _ in range(g.n(1, 3)):
        t = tv_type(g); v = tv_val(g, t, g.ch([0, 0, 0.1, 0.3])); u = t if g.p(0.5) else tv_near(g, t)
        T, U = tv_str(t), tv_str(u); k = g.n(0, 11)
        out.append((
          lambda: '@show @let(q=@fn $v: %s -> $v) @q %s' % (U, v), lambda: '@show @let(q=@fn($v: %s). -> [$v, @typeof $v]) @q(v=%s).' % (U, v), lambda: '@show @let(q=@fn($_v: %s) . -> @typeof $_v) @q(%s).' % (U, v),
          lambda: '@match %s {_: %s -> yes, _ -> no}' % (v, U), lambda: '@show @match %s {$v: %s -> [$v, @typeof $v], $w: %s -> [2, $w, @typeof $w], _ -> @typeof %s}' % (v, U, tv_str(tv_near(g, u)), v),
          lambda: '@show @typeof [%s]' % ', '.join([v, tv_val(g, t, 0), tv_val(g, tv_near(g, t), 0)][:g.n(1, 3)]), lambda: '@show @typeof @dict::new(a=%s, b=%s).' % (v, tv_val(g, tv_near(g, t), 0)),
          lambda: '@show @let(q=@fn(*$_r: %s list). -> [$_r, @typeof $_r]) @q(%s).' % (U, ', '.join([v, tv_val(g, t, 0.1)])), lambda: '@show @let(q=@fn(**$r: %s dict). -> [$r, @typeof $r]) @q(a=%s, b=%s).' % (U, v, tv_val(g, t, 0.1)),
          lambda: '@show @let(q=@fn($v?: %s). -> [$v, @typeof $v]) [@q(v=%s)., @q.]' % (U, v), lambda: '@let(q=@fn $v: %s -> $v) <%s>@q %s</>' % (U, g.ch(['div', 'p', 'a', 'span', 'ul']), v),
          lambda: '@show @let(q=@fn $v: %s -> @list::len @list::html_nodes $v) @q %s' % (g.ch(['html', 'block', 'inline', U]), v))[k]() + '\n')
    return ''.join(out)

def prog_mixed(g):
    out = [PRELUDE] if g.p(0.5) else []
    for _ in range(g.n(1, 4)):
        out.append(g.pick((3, lambda: g.content(2)), (2, lambda: show(g.e_any(3))), (1, lambda: g.anonfn(2, g.ch(NAMES))[0] + '\n'), (1, lambda: '@let(%s=%s)...\n' % (g.ident(), g.e_any(2)))))
    return ''.join(out)

# -- every native function, called directly, bound, as a method and as a callback
def prog_native(g):
    out = [PRELUDE]
    g.err = 0.01
    S = lambda: g.pick((3, lambda: g.ch(["`foo bar`", '`a,b,,c`', "''", '` `', 'foo', '`é x`', '`-5`', '`12`', '`<b>&`', '`A`', '`aXb`', '`"q"`', '"$n"', '5'])), (1, lambda: g.verb(g.rawstr(0.2) or 'x')))
    I = lambda: g.ch([str(g.n(-4, 6)), str(g.n(0, 3)), '9223372036854775807', '-9223372036854775807', '`3`', '0'])
    B = lambda: g.ch(['True', 'False'])
    H = lambda: g.ch(['{}', '{ }', '<b>x</b>', '{a <i>b</i> c}', '<div>d</>', '{<p>x</><p>y</>}', 'foo', '<br>', '{<b>x</>y<i/>}', '<a id=`q`><hr></>', '``', '5', '{&nbsp;}'])
    def C(d=1):      # callbacks
        return g.pick((5, lambda: g.ch(['@fn $q -> $q', '@fn $q: int -> @int::add($q, 1).', '@fn $q -> @match $q {_: int -> True, _ -> False}', '@fn $q -> @match $q {1 -> True, 2 -> False, `foo` -> True, _ -> False}', '@fn $q: str -> @str::len $q', '@fn $q -> [$q]', '@fn $q -> .',
                '@fn $q -> @match $q {1 -> 5, 2 -> 5, 3 -> 0, _ -> 9}', '@fn $q -> $nosuch', '@fn $q -> @raise `no`', '@fn $q -> @match $q {2 -> `two`, _ -> 2}', '@fn $q -> @match $q {2 -> ., _ -> 2}', '@fn $q -> {<b>$q</b>}', '@fn $q: str list -> 1', '@fn $q -> $typeof', '@fn . -> 1'])),
            (3, lambda: '@fn f($%s: @implicit %s) $q -> %s' % (g.ch(['k', 'k', 'k?', 'm', 'm?']), g.ch(['int', 'int', 'bool', 'str', 'any']), g.ch(['[$k, $q]', '@int::add($k, $q).', '$k', '$m', '{$k $q}']))),
            (2, lambda: g.ch(['@fn f($_a) $q -> $q', '@fn f($_a?) $q -> [$_a, $q]', '@fn f($x=3) $q -> [$x, $q]', '@fn f(*$_r) $q -> [$_r, $q]', '@fn f(**$kw) $q -> [$q, $kw]', '@fn f($x) $q -> $x', '@fn f($_a?: int, $x=`d`) $q: any -> [$q, $_a, $x]'])),
            (3, lambda: '$' + g.ch(['int::negate', 'bool::negate', 'str::len', 'str::upper', 'list::len', 'list::reversed', 'list::sorted', 'typeof', 'list::join', 'b', 'str::from', 'dict::keys', 'list::enumerate', 'html::is_empty', 'bool::from', 'str::is_empty', 'list::filter', 'bold', 'code', 'raise', 'int::parse', 'str::unique_id'])),
            (2, lambda: '@function::bind($%s, %s).' % g.ch([('int::add', '2'), ('int::add', '1, 2'), ('list::get', '0'), ('list::map', '$typeof'), ('str::split', '`,`'), ('list::contains', '1'), ('list::slice', '1'), ('list::join', '`-`'), ('str::starts_with', '`f`'), ('bool::and', 'True'), ('list::enumerate', 'from=5'), ('code', 'language=none'), ('list::sorted', 'reversed=True'), ('dict::new', 'k=1'), ('dict::get', '`k`')])))
    def L():
        return g.pick((4, lambda: '[%s]' % ', '.join(g.ch([str(g.n(0, 4)) for _ in range(1)]) for _ in range(g.n(0, 5)))), (2, lambda: '[%s]' % ', '.join(g.ch(['foo', 'bar', '`B`', 'a', '`é`', "''", 'foo']) for _ in range(g.n(0, 5)))),
                      (1, lambda: '[%s]' % ', '.join(g.ch(['[1, 2]', '[]', '[3]', '[a]', '5']) for _ in range(g.n(0, 4)))), (1, lambda: '[%s]' % ', '.join(g.ch(['True', 'False', 'True']) for _ in range(g.n(0, 4)))),
                      (1, lambda: '[%s]' % ', '.join(g.ch(['1', 'foo', '.', 'True', '<b>x</b>', '[1]', '$typeof']) for _ in range(g.n(0, 5)))), (0.7, lambda: '[%s]' % ', '.join(H() for _ in range(g.n(0, 4)))), (0.5, lambda: g.ch(['.', '{x}', '`ab`'])))
    def D():
        ks = g.r.sample(NAMES, g.n(0, 3))
        return '@dict::new%s.' % ('(%s)' % ', '.join('%s=%s' % (k, g.ch(['1', '2', 'foo', '[1]', '.', '<b>x</b>'])) for k in ks) if ks else '')
    R = lambda: '@regex::compile `%s`' % g.regex()
    A = lambda: g.ch([S, I, B, H, L, D, lambda: '.', C])()
    T = {'S': S, 'I': I, 'B': B, 'H': H, 'C': C, 'L': L, 'D': D, 'R': R, 'A': A}
    FN = [('bool::and', 'BB', '', ''), ('bool::or', 'BB', '', ''), ('bool::from', '', '', 'A'), ('bool::negate', '', '', 'B'), ('int::add', 'I*', '', ''), ('int::negate', '', '', 'I'), ('int::parse', '', '', 'S'),
          ('str::starts_with', 'SS', '', ''), ('str::ends_with', 'SS', '', ''), ('str::escape_html', '', '', 'S'), ('str::from', '', '', 'A'), ('str::is_empty', '', '', 'S'), ('str::is_whitespace', '', '', 'S'), ('str::len', '', '', 'S'),
          ('str::split', 'S', '', 'S'), ('str::trim', '', '', 'S'), ('str::upper', '', '', 'S'), ('str::lower', '', '', 'S'), ('str::unique_id', '', 'max_length=I', 'S'),
          ('regex::count', 'R', '', 'S'), ('regex::find', 'R', '', 'S'), ('regex::find_all', 'R', '', 'S'), ('regex::split', 'R', '', 'S'), ('regex::test', 'R', '', 'S'),
          ('function::bind', 'CA*', 'k=I', 'A'), ('function::name', '', '', 'C'), ('function::call', 'CA*', 'k=I', 'A'), ('html::escape_html', '', '', 'H'), ('html::is_empty', '', '', 'H'), ('html::is_whitespace', '', '', 'H'), ('html::tag_name', '', '', 'H'),
          ('inline::from', '', '', 'H'), ('block::from', '', '', 'H'), ('list::all', 'C', '', 'L'), ('list::any', 'C', '', 'L'), ('list::contains', 'A', '', 'L'), ('list::enumerate', '', 'from=I', 'L'), ('list::filter', 'C', '', 'L'), ('list::filter', '', '', 'L'),
          ('list::find', 'C', '', 'L'), ('list::flat', '', '', 'L'), ('list::get', 'I', '', 'L'), ('list::html_nodes', '', '', 'H'), ('list::is_empty', '', '', 'L'), ('list::join', 'H', '', 'L'), ('list::join', '', '', 'L'), ('list::len', '', '', 'L'),
          ('list::map', 'C', '', 'L'), ('list::map', 'C', '', 'L'), ('list::slice', 'II', '', 'L'), ('list::slice', 'I', '', 'L'), ('list::sorted', '', 'key=C,reversed=B', 'L'), ('list::sorted', '', 'key=C', 'L'), ('list::reversed', '', '', 'L'),
          ('dict::get', 'S', '', 'D'), ('dict::is_empty', '', '', 'D'), ('dict::items', '', '', 'D'), ('dict::keys', '', '', 'D'), ('dict::len', '', '', 'D'), ('dict::values', '', '', 'D'),
          ('typeof', '', '', 'A'), ('raise', '', '', 'S'), ('code', '', 'language=S,code_block=B,first_line_no=I', 'S')]
    arg = lambda t: T[t]() if g.p(0.93) else A()
    for _ in range(g.n(1, 4)):
        f, ps, ns, c = g.ch(FN)
        P = []
        for i, t in enumerate(ps):
            if t == '*': P += [arg(ps[i-1]) for _ in range(g.n(0, 2))]
            else: P.append(arg(t))
        N = ['%s=%s' % (x.split('=')[0], arg(x.split('=')[1])) for x in ns.split(',') if x and g.p(0.5)]
        if g.p(0.03): P.append(A())
        if g.p(0.03) and P: P.pop()
        if g.p(0.03): N.append('zz=1')
        cv = (arg(c) if g.p(0.97) else '.') if c else ('.' if g.p(0.95) else A())
        a = '(%s)' % ', '.join(P + N) if P + N else ''
        k = g.n(0, 9)
        con = '.' if cv == '.' else ' ' + cv
        if k <= 5: e = '@%s%s%s' % (f, a, con)
        elif k == 6: e = '@let(h=$%s) @h%s%s' % (f, a, con)
        elif k == 7 and (P or N): e = '@let(h=@function::bind(%s).) @h%s%s' % (', '.join(['$' + f] + P[:1]), '(%s)' % ', '.join(P[1:] + N) if P[1:] + N else '', con)
        elif k == 8 and c and '::' in f: e = '@let(w=%s) @w::%s%s.' % (cv, f.split('::')[1], a)
        else: e = '@list::map(@fn $cc -> @%s%s $cc) [%s, %s]' % (f, a, cv, arg(c) if c else '.')
        e = '@show ' + e
        if 'implicit' in e or g.p(0.15): e = '@implicit(%s=%s) %s' % (g.ch(['k', 'k', 'm', 'language']), g.ch(['1', '2', '`s`', 'True', 'none', 'papyri']), e)
        if '$n"' in e: e = '@let(n=%s) %s' % (I(), e)
        out.append(e + '\n')
    return ''.join(out)

# -- lists taken apart by patterns again and again
def prog_sub(g):
    out = [PRELUDE]
    html = g.p(0.25)
    for _ in range(g.n(1, 2)):
        if html:
            vals = [g.ch(['<b>%d</>', '<i>%d</>', '<br>', '<hr>', '<u x=`%d`/>', 't%d']) for _ in range(g.n(0, 7))]
            vals = [v % i if '%' in v else v for i, v in enumerate(vals)]
            cur = '{%s}' % '{}'.join(vals)
        else:
            vals = [str(i) if g.p(0.8) else g.ch(['foo', '[1, 2]', '.', 'True']) for i in range(1, g.n(1, 9))]
            if g.p(0.3): vals = [g.ch(['1', '2', '1', '[2]']) for _ in vals]
            cur = '[%s]' % ', '.join(vals)
        n = len(vals); used = []
        def level(src, lo, hi, d):
            """a match on src, which holds vals[lo:hi]"""
            m = max(0, hi - lo)
            uses = []
            a = g.n(0, min(m, 3)); b = g.n(0, min(m - a, 3))
            if g.p(0.08): a += 1        # too many
            nm = ['p%d_%d' % (d, i) for i in range(a + b)]
            ps = ['$' + x if g.p(0.6) else '_' for x in nm]
            w = 'w%d' % d
            sp = g.ch(['*$%s' % w] * 5 + ['*_', '*$%s: %s' % (w, 'html' if html else 'list')])
            pat = ps[:a] + [sp] + ps[a:]
            if g.p(0.1): pat = ps[:a] + ps[a:]; sp = '*_'
            bound = [p for p in ps if p[0] == '$']
            body = list(bound)
            if '$' in sp:
                v = '$' + w; k = max(0, m - a - b)
                if html: acts = ['$w', '@list::len @list::html_nodes $w', '@html::is_empty $w', '@list::html_nodes $w', '@typeof $w', '{$w$w}', '<div>$w</>', '@list::join(`-`) @list::html_nodes $w']
                else: acts = ['$w', '$w::%d' % g.n(-k - 1, k), '$w::%d' % g.n(-k, max(k - 1, 0)), '@list::len $w', '@list::slice(%d, %d) $w' % (g.n(-k - 1, k + 1), g.n(-k - 1, k + 1)), '@list::slice(%d) $w' % g.n(-k - 1, k + 1), '@list::reversed $w', '[*$w, 0]', '[$w, *$w]', '@list::map(@fn $q -> [$q]) $w', '@list::contains(3) $w', '@list::get(%d) $w' % g.n(-k, k),
                         '@list::is_empty $w', '@list::flat [$w, $w]', '@list::enumerate(from=%d) $w' % g.n(0, 3), '@match $w {=[%s] -> same, [] -> none, _ -> other}' % ', '.join(vals[lo + a:max(lo + a, hi - b)]), '@fn r(*$_v) . -> [$_v, $_v::0] @r(*$w).' if 0 else '@list::filter(@fn $q -> @match $q {_: int -> True, _ -> False}) $w', '@list::join(`-`) $w', '@list::find(@fn $q -> @match $q {4 -> True, _ -> False}) $w', '@list::sorted $w', '@w::len.', '@list::all(@fn $q -> True) $w']
                for dd in range(d):
                    if g.p(0.3): body.append('@match %s {=$w%d -> same, _ -> other}' % (v, dd)); break
                if m and g.p(0.15): acts = ['@match %s {%s -> @match $w {=$o -> same, _ -> other}, _ -> none}' % (src, ('{%s}' if html else '[%s]') % (' ' if html else ', ').join(g.ch([['_'] * a + ['*$o'] + ['_'] * b, ['*$o'] + ['_'] * (a + b), ['_'] * (a + b) + ['*$o']])))]
                body += [x.replace('$w', v).replace('@w', '@' + w) for x in [g.ch(acts) for _ in range(g.n(1, 2))]]
                if d < 3 and g.p(0.75): body.append(level(v, lo + a, hi - b, d + 1))
            alts = '%s -> [%s]' % ('{%s}' % ' '.join(pat) if html else '[%s]' % ', '.join(pat), ', '.join(body))
            extra = g.ch(['', '', '[] -> empty, ' if not html else '', '[$z] -> [one, $z], ' if not html else '{$z} -> [one, $z], ' if g.p(0.3) else ''])
            return '@match %s {%s%s, _ -> none}' % (src, extra, alts)
        if g.p(0.25) and not html:
            out.append('@fn f%d(*$_v%s) $c -> %s\n' % (n, g.ch(['', ': list', ': any list']), level('$_v', 0, n, 0)))
            i = g.n(0, n); out.append('@show @f%d(%s) 1\n' % (n, ', '.join(vals[:i] + (['*[%s]' % ', '.join(vals[i:])] if i < n or g.p(0.3) else []))))
        elif g.p(0.3): out.append('@let(src=%s) @show %s\n' % (cur, level('$src', 0, n, 0)))
        else: out.append('@show %s\n' % level(cur, 0, n, 0))
    return ''.join(out)

# -- highlighting, line by line
URLS = ['https://x.y/z', 'http://a.b', 'https://q.r?s=1&t=<u>', 'https://é.老', 'http://x', 'https://a.b/c#d', 'https://', 'http:/x', 'https://x.y.', 'https://x,y)']
def prog_codel(g):
    out = []
    def u(): return g.ch(URLS)
    def words(k=3): return ' '.join(g.pick((3, lambda: g.ch(['foo', 'see', 'é', 'a.b', '1', '-', 'x=y', '&', '<b>', '(', ')', '$v', '@f', '"', "'", '#'])), (1.5, u)) for _ in range(g.n(0, k)))
    def tok():
        return g.pick((2, lambda: g.ch(['foo', 'x', 'True', 'False', '_', '12', '-3', '.', ',', ':', '=', '->', '*', '**', '|', '&', '...', '?', '::', '?::', '--', 'é', 'int', 'str list', 'any?'])), (2, lambda: g.ch('()[]{}')), (1, lambda: '$' + g.ch(['x', '_y', 'café', 'x::0', 'a::b'])), (1, lambda: '@' + g.ch(['foo', 'let', 'fn', 'match', 'export', 'implicit', 'import', 'list::len', 'é'])),
            (1, lambda: '"%s"' % g.ch(['s', '$x', u(), 'a %s b %s c' % (u(), u()), '$x::0 %s' % u(), '\\n', '\\$', '{', 'é']) if g.p(0.9) else g.ch('"\'')), (1, lambda: "'%s'" % g.ch(['', 's', '$y z', u(), '@f', 'a\\\'b'])), (1, lambda: g.ch(['<b>', '</b>', '</>', '<br/>', '<a href="%s">' % u(), '<a href=%s>' % 'x', '<x-y z?=.>', '<!-- %s -->' % words(), '<!DOCTYPE html>', '<$t **$a>', '<# %s #>' % words(), '<p class=k id="j">'])),
            (1, lambda: '# ' + words(4)), (0.5, u), (0.6, lambda: g.ch(['&amp;', '&lt', '&#65;', '&nosuch;', '\\x41', '\\', '\\u00e9'])), (0.7, lambda: g.ch(['$x: int', '$x: str list?', '_: $t', '$_a: @implicit str', '(x: int)', '@fn f($x: int dict) $c: html -> $x', '[_: any list, *$r]'])))
    def line(): return g.ch(['', '', '', '  ', '    ', '\t', ' ']) + ''.join(tok() + g.ch([' ', ' ', '', '']) for _ in range(g.ch([0, 1, 2, 3, 4, 6]))) + g.ch(['', '', '', ' '])
    def body(k=5):
        ls = []
        for _ in range(g.n(1, k)):
            ls.append(line().replace('`', "'"))
            if g.p(0.05): ls.append(g.ch(['"open\n%s\nclose" x' % u(), '<!-- multi\nline %s\n-->' % u(), '<# a\n b #>', "'a\n\n$x b'"]))
        return g.ch(['\n', '\n', '\n', '\r\n']).join(ls)
    if g.p(0.12): out.append('@implicit(language=%s)...\n' % g.ch(['papyri', 'none', '`none`', '.', '5']))
    for _ in range(g.n(1, 2)):
        k = g.n(0, 6)
        if k == 0: out.append('`%s`' % (line().replace('`', '') or 'x'))
        elif k <= 2: out.append('```%s\n%s\n```' % (g.ch(['papyri', 'papyri', 'papyri', 'none', '', 'Papyri', 'nosuchlang', ' papyri', 'papyri ', 'x y']), body()))
        elif k == 3: out.append('@code(language=%s, code_block=%s%s) ```%s%s```' % (g.ch(['papyri', 'papyri', 'none', '.']), g.ch(['True', 'False']), g.ch(['', ', first_line_no=%s' % g.ch(['0', '5', '99', '-3', '9223372036854775800', '9223372036854775807'])]), g.ch(['', '\n', 'papyri\n']), body()))
        elif k == 4: out.append('@code(language=papyri) ```\n%s```' % body(3))
        elif k == 5: out.append('<pre>@code(language=%s, code_block=True%s) ```\n%s\n```</pre>' % (g.ch(['papyri', 'none', 'nosuchlang']), g.ch(['', ', first_line_no=%d' % g.n(0, 20)]), body()))
        else: out.append('@code_block%s ```%s\n%s\n```' % (g.ch(['', '(language=papyri)', '(language=none, first_line_no=7)', '(first_line_no=2)', '(language=.)']), g.ch(['', 'papyri']), body()))
        out.append(g.ch(['\n\n', '\n', ' ']))
    return ''.join(out)

# -- attributes and tag names
def prog_attr(g):
    out = [PRELUDE]
    W = lambda: g.ch(['', '', '', '', '', '', ' ', '\n'] + [' # c\n'] * g.p(0.2))
    X = ['id', 'class', 'title', 'href', 'data_x', 'a_b_c', 'lang', 'x', 'checked', 'xmlns', 'ID', 'style', 'alt', '_y', 'x1']
    V = lambda: g.pick((4, lambda: g.ch(['`q`', 'foo', '"t"', "'u'", "''", '"a $v b"', '$v', '`<&>"`', "`it's`", '"\\"" ' if 0 else '`"`', '`é`', '` `', '"$v$v"', '"&amp;"', '@str::upper foo'])), (0.15, lambda: '.'), (0.25, lambda: g.ch(['5', 'True', '-2', '[1]', '{a}', '<b>x</b>', '$typeof', '{}', '$nosuch', '@dict::new.', '[]', '{a b}'])))
    def attr():
        x = g.ch(X)
        return g.pick((5, lambda: x + W() + '=' + W() + V()), (3, lambda: x + W() + '?' + W() + '=' + W() + (V() if g.p(0.65) else '.')), (2, lambda: x), (0.03, lambda: x + '?'), (0.03, lambda: x + '='), (1.5, lambda: '**@dict::new(%s).' % ', '.join('%s=%s' % (k, V()) for k in g.r.sample(['id', 'k', 'class', 'href', 'y_z', 'title'], g.n(0, 3)))), (0.4, lambda: '**$d'), (0.02, lambda: '*$d'), (0.02, lambda: '**[1]'))
    if g.p(0.97): out.append('@let(v=%s, d=@dict::new(%s)., t=%s)...\n' % (g.ch(['`val`', '`"<`', '5', '.', "''", 'foo', '`a`']), ', '.join('%s=%s' % (k, V().replace('$v', 'w').replace('$nosuch', '.')) for k in g.r.sample(['id', 'k', 'class'], g.n(1, 3))), g.ch(['`div`', '`b`', 'p', '`BR`', '`br`', '`li`', '`script`', '`a`', '`ul`', '`div`', '`B`', 'i'] + ['`x y`', "''", '5', '`é`', '.'] * g.p(0.2))))
    for _ in range(g.n(1, 3)):
        t = g.ch(['b', 'a', 'p', 'div', 'br', 'img', 'A', 'Div', 'x_y', 'i', 'input', '$t', '$t', 'li', 'ul', 'table', 'h1', 'pre', 'meta', 'b1', 'BR', '_' if g.p(0.03) else 'i'])
        at = ''.join(g.ch([' ', ' ', '\n', '  ']) + attr() for _ in range(g.ch([0, 1, 1, 2, 2, 3, 4])))
        k = g.n(0, 9)
        c = g.ch(['x', '', ' ', 'foo bar', '<i>y</i>', '$v', '5', '{}'])
        cl = '</%s>' % t if t[0] != '$' and g.p(0.6) else '</>'
        if g.p(0.03): cl = g.ch(['</b>', '</DIV>', '</ >', '', '</%s>' % t.upper(), '</%s>' % t.lower(), '</x', '</$t>'])
        e = '<%s%s%s/>' % (t, at, g.ch(['', ' '])) if k == 0 else '<%s%s%s>' % (t, at, W()) if t in ('br', 'img', 'input', 'meta', 'BR') else '<%s%s%s>%s%s' % (t, at, W(), c, cl)
        w = g.n(0, 7)
        if w == 0: e = '@show @html::tag_name ' + e
        elif w == 1: e = '@match %s {<%s %s **$r>_</> -> {m @show $r}, <$tt **$r>$cc</> -> {<$tt **$r>$cc</>}, _ -> none}' % (e, g.ch(['$n', 'b', '_', 'div']), g.ch(['', 'id=$i', 'class?=$k', 'id', 'href=`q`', 'title=_']))
        elif w == 2: e = '@%s(%s) %s' % (g.ch(['attributes', 'attributes', 'class', 'style']), g.ch(['id=new', '`k`', 'id=., k=`1`', '**$d', 'a_b=`1`']), e)
        out.append(e + g.ch(['\n', '\n\n', ' ']))
    return ''.join(out)

# -- the standard library with arguments of every kind
STDSIG = [('page', '', 'title:str web_root:str? head:html? header:html? footer:html?', 'block'), ('typeof', '', '', 'any'), ('attributes', '', 'id:str? class:str? k:str? href:str?', 'tag'), ('class', 'str', '', 'tag'), ('style', 'str', '', 'tag')] + \
    [(n, '', '', 'inline') for n in ['b', 'bold', 'cite', 'dfn', 'emph', 'i', 'quote', 'span', 'sub', 'sup', 'strikethrough', 'underline', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'footnote']] + \
    [(n, '', '', 'str') for n in ['kbd', 'samp']] + [('blockquote', '', 'cite:str?', 'block'), ('blockquote', '', 'cite:str?', 'block'), ('href', 'str', '', 'inline'), ('href', 'str', '', 'inline'), ('image', '', 'alt:str?', 'str'), ('code_block', '', 'language:str? first_line_no:int?', 'str'), ('numbered', '', '', 'ul'), ('numbered', '', '', 'ul'),
     ('inline::from', '', '', 'inline'), ('block::from', '', '', 'block'), ('html::tag_name', '', '', 'tag'), ('function::call', 'fn', '', 'any')]
def prog_stdx(g):
    out = [PRELUDE]
    val = lambda t: g.ch({'str': ['`u`', 'foo', '5', '`a"<b>`', "''", '` `', '`http://x.y/?a=1&b=2`', '"t"', '`k: v;`', 'True'], 'int': ['3', '0', '-1', '`7`'], 'html': ['<b>h</>', '{a b}', '<p>q</>', '<link rel=`x`>', '{}', 'foo', '{<p>a</>b}', '5', '[x, y]'],
        'inline': ['foo', '{a <b>c</b>}', '<i>x</i>', '5', '{}', '.', '`q<`', '<br>', '{x\n\ny}', '<a>k</>', '{<b>x</b> <i>y</i>}', '[a, b]', '{ }'], 'block': ['<p>x</p>', 'foo', '{<p>a</p><p>b</p>}', '<div>d</>', '{a\n\nb}', '<ul><li>z</></>', '.', '<a><hr></>', '{}', '[a, <p>b</>]', '<h1>t</>', '{<p>a</>b}'],
        'tag': ['<b>x</b>', '<b class=`o`>x</b>', '<b style=`o` id=z>x</b>', '<br>', '<p class>x</p>', '<a href=`q` class=`o p`>z</>', '<div id=w/>', '{<b>y</>}', '<ul><li>q</></>', '<b class?=.>x</>', '<li>z</>'], 'ul': ['<ul><li>a</><li>b</></>', '<ul id=q/>', '<ol><li>a</></>', '<div/>', '{<ul/>}', '<ul class=`k`><li>x</></>', 'foo', '[a]'],
        'any': ['1', 'foo', '.', '[1]', '<b>x</>', '$typeof', 'True', '@dict::new(k=1).', '{a}', '<p>x</>', '@regex::compile `x`', '{}'], 'fn': ['$typeof', '$str::upper', '@fn $q -> [$q]', '@fn f($_a?) $q -> [$_a, $q]', '$b']}[t])
    BAD = {'str': ['[1]', '<b>x</>', '.', '{x}', '$typeof'], 'int': ['x', '.', '[1]'], 'html': ['$typeof', '@regex::compile `x`'], 'inline': ['<div>x</>', '{<p>x</p>}', '<p>x</>', '<a><hr></>', '$typeof', '[<p>a</>]'], 'block': ['$typeof', '@regex::compile `x`'], 'tag': ['foo', '{a <b>c</b>}', '.', '5', '[1]', '{}', '$typeof'], 'ul': ['5', '.', '{<ul/><ul/>}'], 'any': ['$nosuch'], 'fn': ['1', 'foo']}
    v = lambda t: val(t) if g.p(0.88) else g.ch(BAD[t])
    for _ in range(g.n(1, 3)):
        f, ps, ns, c = g.ch(STDSIG)
        a = [v(t) for t in ps.split()]
        for x in ns.split():
            k, t = x.split(':')
            if not t.endswith('?') and g.p(0.97) or g.p(0.45): a.append('%s=%s' % (k, '.' if t.endswith('?') and g.p(0.12) else v(t.rstrip('?'))))
        if f == 'function::call' and g.p(0.4): a.append(v('any'))
        if g.p(0.04): a.append(g.ch(['1', 'zz=1', '`x`']))
        if g.p(0.04) and a: a.pop(0)
        cv = v(c)
        e = '@%s%s%s' % (f, '(%s)' % ', '.join(a) if a else '', '.' if cv == '.' else ' ' + cv)
        k = g.n(0, 6)
        if k == 0: e = '@show ' + e
        elif k == 1: e = '<%s>%s</>' % (g.ch(['div', 'p', 'span', 'ul', 'a', 'td', 'h2', 'section', 'li']), e)
        elif k == 2:
            f2, p2, n2, c2 = g.ch([x for x in STDSIG if x[3] in ('inline', 'block', 'tag') and not x[2].startswith('title')])
            e = '@%s%s %s' % (f2, '(%s)' % ', '.join(v(t) for t in p2.split()) if p2 else '', e)
        elif k == 3: e = '@list::map(@fn $q -> @%s%s $q) [%s, %s]' % (f, '(%s)' % ', '.join(a) if a else '', cv, v(c)); e = '@list::join ' + e if g.p(0.5) else '@show ' + e
        if 'code_block' in e and g.p(0.5): e = '@implicit(language=%s) %s' % (g.ch(['papyri', 'none', '.']), e)
        out.append(e + g.ch(['\n', '\n\n', ' ']))
    return ''.join(out)

# Sizes: long lists, wide dictionaries and signatures, long texts, deep nesting,
# many identifiers, many errors.
def name_(i): return 'abcdefghijklmnopqrstuvwxyz'[i % 26] + ('' if i < 26 else str(i // 26))
def prog_bigl(g):
    n = g.n(17, 48); out = [PRELUDE]
    ws = ['a', 'bb', 'ccc', '`x y`', '`B`', '`\u00e9`', "''", 'dd', 'e', 'ff']
    k = g.n(0, 3); used = 0
    xs = [str(g.n(-9, 9)) for _ in range(n)] if k == 0 else [g.ch(ws) for _ in range(n)] if k == 1 else ['`%s%d`' % (g.ch('xyz'), i) for i in range(n)] if k == 2 else ['[%d, %d]' % (g.n(0, 3), i) for i in range(n)]
    key = {0: ['', '(reversed=True)', '(key=@fn $q -> @str::len @str::from $q)', '(key=@fn $q -> @match $q {0 -> 0, _ -> 1}, reversed=True)'], 1: ['', '(key=$str::len)', '(key=$str::len, reversed=True)', '(key=@fn $q -> 1)', '(key=$str::upper)'],
           2: ['(key=$str::len)', '(key=@fn $q -> @str::len $q, reversed=True)', '(key=@fn $q -> @match $q {"x$_" -> a, _ -> b})', '(reversed=True)'], 3: ['(key=@fn $q -> $q::0)', '(key=@fn $q -> $q::0, reversed=True)', '(key=@fn $q -> @int::negate $q::0)']}[k]
    l = '[%s]' % ', '.join(xs)
    out.append('@let(l=%s)...\n' % l)
    for _ in range(g.n(1, 3)):
        out.append(show(g.pick((4, lambda: '@list::sorted%s $l' % g.ch(key)), (1, lambda: '@list::reversed $l'), (1, lambda: '@list::enumerate(from=%s) $l' % g.ch(['0', '95', '-5'])), (1, lambda: '@list::slice(%d, %d) @list::slice(%d) $l' % (g.n(-30, 30), g.n(-30, 50), g.n(-20, 20))),
          (1, lambda: '@list::get(%d) $l' % g.n(-n - 1, n)), (1, lambda: '@list::len @list::flat [$l, *$l, $l]'), (1, lambda: '@list::contains(%s) $l' % g.ch([xs[-1], xs[n // 2], 'nosuch'])), (1, lambda: '@list::find(@fn $q -> @match $q {=%s -> True, _ -> False}) $l' % xs[-1]),
          (1, lambda: '@match $l {[%s, *$m] -> [%s, $m], _ -> no}' % (', '.join('$' + name_(i) for i in range(18)), ', '.join('$' + name_(i) for i in range(17, -1, -1)))), (1, lambda: '@match $l {[*$m, %s] -> $%s, _ -> no}' % (', '.join('$' + name_(i) for i in range(17)), name_(g.n(0, 16)))),
          (1, lambda: '@match $l {=[%s] -> same, _ -> other}' % ', '.join(xs[:-1] + [g.ch([xs[-1], '7'])])), (1, lambda: '@int::add(%s).' % ('*$l' if k == 0 else ', '.join(str(g.n(-9, 99)) for _ in range(n)))), (1, lambda: '@list::map(@fn $q -> [$q, $l::%d]) @list::slice(-3) $l' % g.n(-17, 16)))))
    if g.p(0.6):
        ks = [name_(i) for i in range(g.n(9, 34))]; g.r.shuffle(ks)
        d = '@dict::new(%s).' % ', '.join('%s=%d' % (a, i) for i, a in enumerate(ks))
        out.append('@let(d=%s)...\n' % d)
        out.append(show(g.pick((2, lambda: '@dict::%s $d' % g.ch(['keys', 'values', 'items', 'len'])), (1, lambda: '@dict::get(%s) $d' % g.ch(ks)), (2, lambda: '@match $d {(%s, **$r) -> [$%s, @dict::keys $r], _ -> no}' % (', '.join(ks[2:9]), ks[5])), (1, lambda: '@dict::new(%s=0, **$d).' % g.ch(ks + ['zz', 'zz', 'zz'])),
          (1, lambda: '@match $d {=@dict::new(%s). -> same, _ -> other}' % ', '.join('%s=%d' % (a, i) for i, a in sorted(enumerate(ks), key=lambda t: t[1]))))))
    return ''.join(out)
def prog_bigf(g):
    out = [PRELUDE]; n = g.n(6, 14); ps = [name_(i) for i in range(n)]
    k = g.n(0, 4)
    if k == 0:
        a = g.n(0, n); pos, nam = ['_' + x for x in ps[:a]], ps[a:]; df = {x: g.ch([' = %d' % i, '', ''] if x in nam else ['']) for i, x in enumerate(nam)}
        m = g.ch([a, a, a, a - 1, a + 1, 0]); args = [str(i) for i in range(m)] + ['%s=%s' % (x, g.ch(['foo', '7', '[1]'])) for x in g.r.sample(nam, len(nam)) if not df[x] or g.p(0.4)]
        if g.p(0.3) and nam: args.append('%s=8' % g.ch(nam))
        out.append('@fn f(%s%s) $z -> @show [%s]\n@f(%s) {w}\n' % (', '.join(['$' + x for x in pos] + ['$%s%s' % (x, ': any' + df[x] if df[x] else '') for x in nam]), '', ', '.join('$' + x for x in pos + nam), ', '.join(args)))
        if g.p(0.5): out.append('@let(g=@function::bind($f%s).) {@g(%s) {w}}\n' % (''.join(', ' + x for x in args[:m // 2 if m > 0 else 0]), ', '.join(args[m // 2 if m > 0 else 0:])))
    elif k == 1:   # deep scopes
        for i in range(n): out.append('@let(%s=%d, x=%d) {' % (ps[i], i, i))
        out.append('@show [$x, %s]' % ', '.join('$' + g.ch(ps) for _ in range(4))); e = n
        while e > 0:
            out.append('}'); e -= 1
            if g.p(0.2): out.append('$x' if e else g.ch(['', '$x']))
    elif k == 2:   # chains of closures
        out.append('@fn f0 $y -> {0$y}\n' + ''.join('@fn f%d $y -> %s\n' % (i, g.ch(['{%d@f%d $y}' % (i, i - 1), '@f%d {%d$y}' % (i - 1, i), '@let(y=%d) {$y@f%d {x$y}}' % (i, i - 1), '@match $y {_ -> @f%d $y}' % (i - 1)])) for i in range(1, n)) + '@f%d {q}\n' % (n - 1))
    elif k == 3:   # recursion
        out.append('@fn f($_n) $l -> @match $l {[] -> %s, [$h, *$t] -> {%s}}\n@f(%d) [%s]\n' % (g.ch(['{end}', '$_n', '@raise `end`', '$nosuch']), g.ch(['$h @f(@int::add($_n, $h).) $t', '@f($_n) $t $h', '@let(k=$h) {@f($k) $t $k $_n}']), g.n(0, 9), ', '.join(str(g.n(0, 9)) for _ in range(n * 2))))
    else:          # many branches
        bs = ['%s -> {%d %s}' % (g.ch(['%d' % i, '%s: str' % name_(i) if g.p(0.5) else '_: str', '[$p, %s]' % ', '.join(['_'] * i), '{<i>$p</i>}', '"q$p%d"' % i, '%s' % ' | '.join('%d' % j for j in range(i, i + 9))]), i, '') for i in range(n)]
        for _ in range(g.n(1, 4)): out.append('@match %s {%s, _ -> none}\n' % (g.ch([str(g.n(0, n + 5)), 'foo', '[%s]' % ', '.join('1' for _ in range(g.n(1, n))), '<i>x</i>', '`qz%d`' % g.n(0, n)]), ', '.join(bs)))
    return ''.join(out)
def prog_bigd(g):
    n = g.n(12, 40); k = g.n(0, 5)
    if k == 0: return ''.join(g.inline(0) + g.ch(['\n\n', '\n\n', ' ', '\n']) for _ in range(n))
    if k == 1:
        ts = [g.ch(['b', 'i', 'span', 'em', 'div', 'div', 'li', 'a', 'section', 'ul', 'blockquote', 'p'] if g.p(0.3) else ['div', 'b', 'span', 'i', 'section']) for _ in range(g.n(8, 22))]
        return ''.join('<%s>%s' % (t, g.ch(['', '', 'x', ' ', 'x\n\n'])) for t in ts) + g.inline(0) + ''.join(g.ch(['', '', 'y', ' ']) + '</%s>' % t for t in reversed(ts))
    if k == 2: return '<ul>' + ''.join(g.ch(['<li>%s</li>', '<li>%s</li>\n', '{%s}', '%s ', '%s\n\n']) % g.inline(0) for _ in range(n)) + '</ul>'
    if k == 3: return '<table>' + ''.join('<tr>%s</tr>' % ''.join(g.ch(['<td>%s</td>', '<th>%s</th>', '%s\n\n']) % g.ch(['x', 'y', '{<b>z</b>}', '']) for _ in range(g.n(1, 6))) for _ in range(g.n(3, 9))) + '</table>'
    if k == 4: return '<b %s>x</b>' % ' '.join('%s%s' % (name_(i), g.ch(['=`%d`' % i, '', '?=.', '=`"&`'])) for i in range(n))
    return PRELUDE + '@let(h={%s})...\n@show @list::len @list::html_nodes $h\n@show $h\n@match $h {{$p $q *$m $z} -> {$z $q $m}, _ -> {none}}\n@str::len @html::escape_html $h' % ''.join(g.ch(['x', '<i>y</i>', ' ', '{ab}', '<br>', '&amp;', '5', '<b>z</b>']) for _ in range(n))
def prog_bigs(g):
    out = [PRELUDE]; n = g.n(20, 60)
    al = g.ch(['ab', 'a,b', 'x1 ', 'a\u00e9\u8001', ' \u00a0b', 'aA\ue000', 'foo,-'])
    s = ''.join(g.ch(al) for _ in range(n)); v = '`%s`' % s
    for _ in range(g.n(1, 3)):
        out.append(show(g.pick((1, lambda: '@str::split(`%s`) %s' % (g.ch([',', 'a', 'ab', 'b', s[:1] or 'a']), v)), (1, lambda: '@str::len ' + v), (1, lambda: '@regex::find_all(@regex::compile `%s`) %s' % (g.ch(['a', 'a+', r'\\w+', '(a)(b)?', 'b|a', r'\\s', 'a*?b', '[ab]{2,3}', '(?P<k>a)b*']).replace('\\\\', '\\'), v)),
          (1, lambda: '@regex::split(@regex::compile `%s`) %s' % (g.ch(['a', ',+', r'\\W', 'b+', '(a|b)']).replace('\\\\', '\\'), v)), (1, lambda: '@str::%s %s' % (g.ch(['trim', 'upper', 'lower', 'is_whitespace', 'escape_html']), v)),
          (1, lambda: '@str::starts_with(`%s`) %s' % (s[:g.n(1, n - 1)], v) if False else '@list::len @str::split(\'\') ' + v), (1, lambda: '@match %s {"%s$r" -> $r, _ -> none}' % (v, s[:3].replace('$', ''))), (1, lambda: '"%s"' % ''.join(g.ch(['$x', 'a', ' ', '$y']) for _ in range(n)) if False else '@let(x=%s, y=7) "%s"' % (v, ''.join(g.ch(['$x', 'a', ' ', '$y.']) for _ in range(9)))))))
    return ''.join(out)
def prog_bige(g):
    out = []
    for i in range(g.n(8, 26)): out.append(g.ch(['$nosuch', '@nosuch 1', '@raise `e%d`' % i, 'text', 'x\ty $q', '@str::len [1]', '@list::map(@fn $q -> @raise $q) [a]', '<b>x</b>', '<p><p>x</p></p>', '@match 1 {2 -> x}', '\u00e9 $r', '\ue000$s', '@let(k=1) {@let(k=2) {$k}}', '@match 5 {$a & $a -> $a}', '@fn g%d $y -> $nosuch\n@g%d 1' % (i, i), '```nosuch\nx\n```', '@let(k=%d)...' % i]) + g.ch(['\n', '\n\n', ' ', '\r\n']))
    return ''.join(out)
def prog_bigu(g):
    if g.p(0.15):
        b = g.ch(['foo', '`abcdef`', '`abcdef`', '`ab cd ef`', 'x', '`x_1`'])
        return PRELUDE + '@fn u $p -> @str::unique_id(max_length=%d) $p\n@let(l=[%s])... @let(a=@list::map($u) @list::flat [%s]) @show [$a::0, $a::8, $a::9, $a::10, $a::-2, $a::-1]\n' % (g.ch([3, 4, 5, 5, 6, 6, 7, 8]), ', '.join([b] * 21), ', '.join(['$l'] * 5))
    b = g.ch(['foo', '`a b`', '`x_1`', 'ab', '`x`', '`foo_9`', '`long_identifier_here`', '`\u00c9`']); n = g.ch([12, 15, 20, 30, 45, 105 if g.p(0.2) else 25])
    return PRELUDE + '@fn u($_m: int) $q -> @list::map(@fn $p -> @str::unique_id(max_length=$_m) $p) $q\n@show @u(%d) [%s]\n' % (g.ch([1, 2, 3, 3, 4, 5, 8, 128]), ', '.join(g.ch([b, b, b, b, b, g.ch(['`foo_10`', 'foo', '`foo_99`', 'x', '`x_10`', '`%s_2`' % b.strip('`')])]) for _ in range(n)))
def prog_bigc(g):
    ls = [g.ch(['', '', '', '  ', '    ', '\t']) + g.ch(CODE).replace('`', "'") for _ in range(g.n(12, 40))]
    return '```%s\n%s\n```\n' % (g.ch(['papyri', 'none', '', 'papyri']), '\n'.join(ls)) if g.p(0.6) else '<pre>@code(language=%s, code_block=True, first_line_no=%s) ```\n%s\n```</pre>' % (g.ch(['papyri', 'none']), g.ch(['90', '1', '-5', '0', '9223372036854775800']), '\n'.join(ls))
PROFILES = {k[5:]: v for k, v in list(globals().items()) if k.startswith('prog_')}
def known_code(n): return n != 0 and (n > 0x10ffff or 0xd800 <= n < 0xe000 or n not in STAND and stood(chr(n)) in ALPHASET)
def clean(s):
    """only characters that the specification has facts about"""
    s = ''.join(c for c in s if c in ALPHASET)
    while True:
        t = _re.sub(r'\\(?:x([0-9a-fA-F]{2})|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8}))',
                    lambda m: m.group() if known_code(int(m.group(1) or m.group(2) or m.group(3), 16)) else m.group()[2:], s)
        t = _re.sub(r'&#(?:([0-9]+)|[xX]([0-9a-fA-F]+));', lambda m: m.group() if known_code(int(m.group(1)) if m.group(1) else int(m.group(2), 16)) else m.group()[2:], t)
        t = _re.sub(r'&[a-zA-Z]*[0-9]\w*;', '', t)
        t = _re.sub(r'&([a-zA-Z]+);', lambda m: m.group() if m.group(1) in ENTITIES or m.group(1).startswith('nosuch') else m.group()[1:], t)
        if t == s: return s
        s = t
WORDARG = ['*foo, ', '**foo, ', '*foo_bar, ', '*[1], ', '**@dict::new(k=1)., ', '*., ', 'foo, ', '*$_x, ', 'k=foo, ', '*k=[1], ']
TWISTS = [
  (r'(?<=<)[a-z]\w*(?=[ />])', lambda g, m: g.ch([m.upper(), m.capitalize(), m[:-1] + m[-1].upper()])),
  (r'(?<=</)[a-z]\w*(?=>)', lambda g, m: g.ch([m.upper(), m.capitalize(), ''])),
  (r'(?<=\w\()(?=[\w$\[`"@{*.])', lambda g, m: g.ch(WORDARG)),
  (r'(?<=[\w\]}`"]), (?=[\w$\[`"@{*.])', lambda g, m: ', ' + g.ch(WORDARG)),
  (r'(?<=\$)\w+(?=::)', lambda g, m: m + '?'),
  (r'`[\w ]*`', lambda g, m: g.ch(['"%s"', "'%s'", '``%s``', '{%s}', '[`%s`]']) % m[1:-1]),
  (r'(?<=[ ,{\[(])\$\w+(?=[ ,}\])])', lambda g, m: g.ch(['_', '.', '{%s}' % m, '[%s]' % m, '"%s"' % m, m + '?'])),
  (r'(?<=[ ,(\[=])-?\d+(?=[ ,)\]}])', lambda g, m: g.ch(['`%s`' % m, '-' + m, m + '0', '00' + m, '{%s}' % m, '.'])),
  (r'(?<= )\w+(?==)', lambda g, m: g.ch([m.upper(), m + '?', m + '_', 'data-' + m, m.capitalize()])),
  (r'\n', lambda g, m: g.ch(['\n# c\n', ' # c\n', '\n\n', '\r\n', '\n  \n'])),
  (r'(?<=[\w`"\]}])\.(?=[\s}])', lambda g, m: g.ch([' {}', ' .', ' 1', ' []'])),
  (r' -> ', lambda g, m: g.ch(['->', ' -> [1] & ', ' | _ -> ', ' & $tw -> ', ' -> .  '])),
]
def twist(g, s):
    'one small change of form at one place'
    a, b = (0, 0) if not s.startswith(PRELUDE) else (len(PRELUDE), len(PRELUDE))
    for _ in range(6):
        r, f = g.ch(TWISTS)
        ms = list(_re.finditer(r, s[a:]))
        if ms: m = g.ch(ms); return s[:a + m.start()] + f(g, m.group()) + s[a + m.end():]
    return s
def program(profile, seed):
    g = G('%s:%s' % (profile, seed))
    s = PROFILES[profile](g)
    if g.p(0.12) and not profile.startswith('big'): s = twist(g, s)
    elif profile in ('match_html', 'pm', 'attr', 'nest', 'seq') and g.p(0.1): s = _re.sub(r'(?<=[</])[a-z]\w*(?=[ />])', lambda m: g.ch([str, str, str.upper, str.capitalize])(m.group()), s)
    if g.p(0.25): s = s.replace('é', g.ch(list(map(chr, STAND))))
    elif g.p(0.2): s = s.replace('é', g.ch(['ΑΣ', 'Σ', 'ŉ', 'ﬁ', 'e\u0301', 'İ', 'ΐ', '\u00ad', '\u2003', 'ΣΑ', 'ǰ']))
    return clean(s)
if __name__ == '__main__':
    import sys
    for i in range(int(sys.argv[2])): print(program(sys.argv[1], i)); print('=====')
