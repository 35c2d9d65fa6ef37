"""The templates and action sets of the enumerated models (spec/MC*.tla).

A template is a list of slots; a slot is a list of alternatives [before, after].
'quick' bounds how many alternatives of each slot the quick check takes."""
def A(*xs): return [[x, ''] if isinstance(x, str) else list(x) for x in xs]
def prog(*slots, quick=None): return ('MCProg', [A(*s) for s in slots], quick)
SHOW = '@fn show $v -> @match $v {. -> {U}, True -> {T}, False -> {F}, _: int -> {I$v}, _: str -> {S(@html::escape_html $v)}, _: function -> {F(@function::name $v)}, _: list -> {L(@list::join(`,`) @list::map($show) $v)}, _: dict -> {D(@list::join(`,`) @list::map(@fn $p -> {$p::0:@show $p::1}) @dict::items $v)}, _: regex -> {R}, _ -> {H(@html::escape_html $v)}}\n'
def P(x): return '@typeof %s=@show %s' % (x, x) if False else '@show ' + x
TYPES = ['any', 'none', 'bool', 'int', 'str', 'html', 'inline', 'block', 'function', 'regex', 'list', 'dict', 'int list', 'str list', 'int?', 'str?', 'html list', 'int? list', 'str dict', 'int dict', 'str list list', 'int list?', 'inline list', 'block list?', 'none list', 'any dict list', 'inline?', 'regex?', 'bool list', 'function list', 'inline dict', 'none dict', 'str? dict', 'any list list', 'html list list', 'int list dict', 'block dict', 'any?', 'html?', 'none?']
def SIGS(xs):
    import re
    return ['@fn f%s %s -> {@show [%s]}\n' % (x, c, ', '.join(list(dict.fromkeys(re.findall(r'\$\w+', x))) + ([c.split(':')[0]] if c != '.' else []))) for x in xs for c in ['$c', '.', '$c: int', '$c: html']]
CHARS = ['<', '>', '/', '=', '{', '}', '$', '@', 'a', '"', "'", '`', '#', '&', ';', '\\', '-', '.', ',', ' ', '\n', '(', ')', '[', ']', ':', '!', '?', '1', '*', '_', '|', 'é', '<b>', '</b>', '<!--', '-->', '<#', '#>', '@fn ', '@match ', '@let(', '->', '$x', '...', 'True', '```', '::', '--', '</>', '@export ', '\\x41', '&lt;', 'int']
MODELS = {
 'scope': prog(
  [('@let(x=1)...\n', ''), ('{@let(x=1)...\n', '}'), ('@let(x=1) {', '}'), ('@implicit(x=1)...\n', ''), '', ('@implicit(x=1) {', '}'), ('@export(x=1).\n', '')],
  ['@fn f . -> {$x}\n', '@fn f($x: @implicit any) . -> {$x}\n', '@fn f $x -> {$x}\n', '@fn f . -> @let(x=9) {$x}\n', '@fn f . -> {@fn g($x: @implicit any) . -> {$x}\n@g.}\n', '@fn f($x?: @implicit any) . -> {$x}\n', '@fn f($x: @implicit any) . -> {@let(x=[$x]) {$x}}\n', '@fn f . -> {{@let(x=8)...\n$x} $x}\n'],
  [('@let(x=2)...\n', ''), ('@let(x=2) {', '}'), ('@match 3 {$x -> {', '}}'), ('@implicit(x=4) {', '}'), ('', ''), ('@implicit(x=4)...\n', ''), ('@let(x=[@let(x=5) {$x}]) {', '}'), ('@let(z={@let(x=6) {$x}}) {$z ', '}'), ('{@let(x=7) {$x}} ', '')],
  ['@f.', '$x @f 5', '@list::map($f) [8]', '@let(w=@f.)...\n$x$w', '@let(x=6, y=$x) {$y $x}', '@let(y=@fn . -> {$x}) {@let(x=3) {@y.}}', '@f(x=8).', '@let(x=3) {@f.}', '@match 2 {$x -> {@f. $x}}', '@let(g=@fn $x -> {@f. $x}) {@g 0}'],
  ['', '$x', ' @f.', '\n@let(x=0)...$x'], quick=[7, 7, 8, 9, 4]),
 'closure': prog(
  ['@fn mk $k -> @fn . -> {$k}\n', '@fn mk $k -> @let(k=[$k, $k]) @fn . -> {$k}\n', '@fn mk($k: @implicit any) . -> @fn . -> {$k}\n', '@let(k=1)...\n@fn mk $j -> @fn . -> {$k$j}\n', '@fn mk $k -> @fn $k2 -> {$k$k2}\n', '@fn mk $k -> @fn($k?=$k) . -> {$k}\n', '@fn mk $k -> @match $k {[$a] -> @fn . -> {$a}, $k3 -> @fn . -> {$k3}}\n', '@fn mk $k -> {$k}\n'],
  ['@let(g=@mk a)...\n', '@let(g=@mk [5])...\n', '@let(k=7, g=@mk b)...\n', '@implicit(k=6)...\n@let(g=@mk.)...\n', '@let(g=@function::bind($mk) c)...\n', '@let(g=@implicit(k=3) @mk.)...\n'],
  [('@let(k=5) {', '}'), ('@fn h $g -> {@let(k=4) {@g.}}\n', ''), ('@match 3 {$k -> {', '}}'), ('@implicit(k=2) {', '}'), ('', ''), ('@list::map(@fn $k -> {', '}) [x, y]'), ('@let(mk=$g, k=9) {', '}')],
  ['@g.', '@g(k=1).', '@list::map($g) [1]', '@list::map(@fn $q -> @g.) [1, 2]', '@let(g2=@mk 8) {@g. @g2. @g.}', '@let(k=0, j=0, a=0) {@g.}', '@g {@g.}', '{@let(g=@mk 3) {@g.}}@g.'],
  ['', '$k', ' @g.', '@h $g']),
 'sig': prog(
  [SHOW],
  SIGS(['', '($_a)', '($_a, $_b)', '($_a, $_b?)', '(*$_r)', '($_a: int, *$_r: int list)', '($k)', '($k?: str)', '(**$w)', '($_a, $k, **$w)', '($k: @implicit str)', '($_a?, $k?: @implicit any)', '($k: int = 4)', '($_a, $_b: str = `d`, $k?, $l = 2)', '(*$_r, **$w)', '($_a?, *$_r, $k, **$w: str dict)', '($_a: str?, $_b: int list?)', '($_a, $_a)', '($k?: int, $_a)', '($_a?, $_b)', '($_a: int?, $k: str? = 5)', '($_a = 3, *$_r: any)']),
  ['@f', '@f(1)', '@f(1, 2)', '@f(*[1, 2, 3])', '@f(k=`s`)', '@f(1, k=x, z=y)', '@f(**@dict::new(k=v, z=w).)', '@f(1, *[2], k=3)', '@f(k=1, k=2)', '@f()', '@f(a=1)', '@f(1, 2, 3)', '@f(., k=.)', '@f(*[])', '@f(**@dict::new.)', '@f(1, **@dict::new(k=v).)', '@f(k=1, **@dict::new(k=v).)', '@f(*[1], 2, l=5)', '@f(_a=1)', '@f(`7`, `8`, k=`9`)', '@implicit(k=`i`) @f', '@implicit(k=5) @f(1)', '@implicit(k=`i`) @f(k=`j`)'],
  ['.', ' 5', ' {x}', ' `6`', ' [7]'], quick=[1, 68, 23, 4]),
 'bind': prog(
  [SHOW + x for x in ['@fn f($_a, $_b?, $k?) $c -> {%s}\n' % P('[$_a,$_b,$k,$c]'), '@fn f(*$_r, **$w) $c -> {%s}\n' % P('[$_r,$w,$c]'), '@fn f($_a: int, $k: str) . -> {%s}\n' % P('[$_a,$k]'), '@fn f($k: @implicit any) $c -> {%s}\n' % P('[$k,$c]'), '@fn f($_a, $k = 4) . -> {%s}\n' % P('[$_a,$k]'), '@let(f=$list::slice)...\n', '@let(f=$list::map)...\n', '@fn f($_a: int, *$_r: int list) $c: html -> {%s}\n' % P('[$_a,$_r,$c]'), '@let(f=$str::unique_id)...\n', '@fn f $c -> {%s}\n' % P('$c'), '@let(f=$function::bind)...\n', '@fn f($_a?, $_b?, $k?, $z?) $c: any -> {%s}\n' % P('[$_a,$_b,$k,$z,$c]'), '@fn f(*$_r: int list, **$w: str dict) $c -> {%s}\n' % P('[$_r,$w,$c]'), '@fn f($_a = 0, $k?: @implicit any, **$w) $c -> {%s}\n' % P('[$_a,$k,$w,$c]'), '@fn f(*$_r, $k = 4, $max_length?) $c: list -> {%s}\n' % P('[$_r,$k,$max_length,$c]')]],
  ['@let(g=@function::bind($f, 1).)...\n', '@let(g=@function::bind($f, 1, 2).)...\n', '@let(g=@function::bind($f, k=`s`).)...\n', '@let(g=@function::bind($f, 1, k=`s`).)...\n', '@let(g=@function::bind($f) [7, 8, 9])...\n', '@let(g=@function::bind($f).)...\n', '@let(g=@function::bind($f, k=1, z=3) 5)...\n', '@let(g=@function::bind($f, *[1], **@dict::new(max_length=4).).)...\n'],
  ['', '@let(g=@function::bind($g, 2).)...\n', '@let(g=@function::bind($g, k=`t`).)...\n', '@let(g=@function::bind($g) [6])...\n', '@let(g=@function::bind($g).)...\n'],
  ['@g.', '@g [5, 4, 3]', '@g(3) [5, 6]', '@g(k=`u`) 5', '@g(3, k=`u`) .', '@g(3, 4) [a, b]', '@f(1) [5]', '@implicit(k=4) {@g [1]}', '@list::map($g) [x, y]', '@g(z=`u`).', '@g. @g.', '@function::name $g']),
 'types': prog(
  [SHOW],
  ['@let(v=%s)...\n' % v for v in ['.', 'True', '5', '-3', '`s`', "''", '`7`', '{a b}', '<b>x</b>', '<p>x</p>', '[]', '[1, 2]', '[1, .]', '[[a], []]', '@dict::new(a=1).', '@dict::new(a=., b=x).', '$show', '{}', '" "', '@regex::compile `a`', '[1, <b>c</>]', '[@dict::new(x=1).]', '`True`', '{<p>a</>b}', '<a><hr></a>', '<br>', '[., 5, `x`]', '[<b>i</b>, <p>j</p>]', '[$show]', '@dict::new(a=[1], b=[x]).', '[[., 1], [x]]', '{5}', '[@dict::new., @dict::new(k=2).]', '@match [1, x] {[$h, *$t] -> $t}', '@dict::new(a={<i>q</i>}, b=<hr>).', '[[], [[1]]]', '{[1]}', '{x\n\ny}', '@list::filter(@fn $z -> False) [1]', '[True, .]', '{<!-- c -->}']],
  ['@typeof $v', '@show $v', '{$v}', '<b>$v</b>'] + ['@let(f=@fn $x: %s -> {@typeof $x=@show $x}) @f $v' % t for t in TYPES] + ['@let(f=@fn($x: %s). -> {@typeof $x=@show $x}) @f(x=$v).' % t for t in TYPES[::3]] +
  ['@match $v {_: %s -> {y}, _ -> {n}}' % t for t in TYPES] + ['@match $v {[_: $t, *_] -> {$t}, _: $u -> {$u}}', '@match [$v, 1] {_: $t -> {$t}}', '@typeof [$v, .]', '@typeof [$v, x]', '@typeof [[$v], [<b>x</b>]]', '@typeof @dict::new(a=$v, b=1).', '@match $v {$x: html -> {@html::escape_html $x}, _ -> {n}}'], quick=[1, 27, 999]),
 'match': prog(
  [SHOW],
  ['@match %s {' % v for v in ['5', '.', 'True', '`ab`', "''", '[]', '[1]', '[1, 2]', '[1, 2, 3]', '@dict::new(k=1).', '@dict::new(k=1, z=2).', '@dict::new.', '<b>x</b>', '<b id=`q`>x <i>y</i></b>', '{x <i>y</i>}', '{}', '<br>', '{<p>a</p><p>b</p>}', '"a-b"', '[[1, 2], 3]', '{x}', '<b class=k id=q></b>', '-1', '`5`', '[x, <b>y</b>]', '{<b>x</b>}', '<p>{<b>x</b> y}</p>', '{a\n\nb}', '$show', '[., True]', '<b id=`q` class=`r`><i>y</i></b>', '@dict::new(k=., z=[1]).', '`a-b-c`', '{ x }', '<i>x</i>', '[1, 1]']],
  ['%s -> {1 %s}, ' % (p, s) for p, s in [(q, '@show $x' if '$x' in q else 'k') for q in ['$x', '[$x]', '[$x, *_]', '[*_, $x]', '[1, *$x]', '[*$x, 2]', '[_, *$x, _]', '(k=$x)', '(k=_, **$x)', '(k=1, **$x)', '<b>$x</b>', '<b id=$x>_</b>', '<b **$x>_</b>', '<$x>_</>', '{$x *_}', '{*_ $x}', '{_ $x}', '"a$x"', '"$x-b"', '"$x-$y"', '$x: int', '$x: str', '$x: any list', '$x: html', '<b id=$x ...>{*_}</b>', '[[$x, _], _]', '<_ **$x/>', '{$x}', '<b>{$x *_}</b>', '<b>{*$x}</b>', '<b class=_ **$x>_</b>', '<$x ...>_</>', '<p>{<b>$x</b> *_}</p>', '{<p>$x</p> *_}', '[$x, $y]', '_: $x', '(**$x)', '(k=., **$x)', '(z=$x, k=_)', '<b id=`q` **$x>_</b>', '<b id=`q` class=_>$x</b>', '[_: int, *$x]', '[*$x: int list]', '{_: str $x}', '[`x` | 1, $x]', '(a=_, **$x)', '[$x, *_: str list]']]] + ['5 -> {5}, ', '. -> {u}, ', '{} -> {e}, ', '_: int -> {i}, ', '[] -> {z}, ', "'' -> {es}, ", '5 | True -> {o}, ', '[1 | 2, *_] -> {oo}, ', '-1 -> {m}, ', '() -> {d}, ', '`ab` -> {ab}, ', '"a-$_" -> {t}, ', '<br> -> {br}, ', '<b/> -> {nb}, '],
  ['_ -> {n}}', '5 -> {five}, [1] -> {one}, _ -> {n}}', '_: str -> {s}}', '[$a, *$b] -> {L @show $a @show $b}, <$t **$a>$c</> -> {T@show $t@show $a@show $c}, {$h *$r} -> {S@show $h@show $r}, $z -> {Z@show $z}}'], quick=[1, 26, 999, 2]),
 'content': prog(
  [('', ''), ('<p>', '</p>'), ('<div>', '</div>'), ('<ul>', '</ul>'), ('<b>', '</b>'), ('<a>', '</a>'), ('<h1>', '</h1>'), ('<table>', '</table>'), ('<section>', '</section>'), ('<pre>', '</pre>'), ('<li>', '</li>'), ('<td>', '</td>'), ('<title>', '</title>'), ('<dl>', '</dl>'), ('<html>', '</html>'), ('<body>', '</body>'), ('<blockquote>', '</blockquote>'), ('<tr>', '</tr>'), ('<figure>', '</figure>'), ('<details>', '</details>'), ('<button>', '</button>'), ('<dd>', '</dd>'), ('<span>', '</span>'), ('<tbody>', '</tbody>'), ('<select>', '</select>'), ('<head>', '</head>'), ('<video>', '</video>'), ('<x_y>', '</x_y>'), ('<label>', '</label>'), ('<caption>', '</caption>'), ('<textarea>', '</textarea>'), ('<script>', '</script>'), ('<object>', '</object>'), ('<form>', '</form>'), ('<fieldset>', '</fieldset>'), ('<article>', '</article>'), ('<template>', '</template>'), ('<br>', ''), ('@let(t=`span`) <$t>', '</>')],
  [('', ''), ('x', ''), ('', 'y'), ('<p>', '</p>'), ('<div>', '</div>'), ('<b>', '</b>'), ('<li>', '</li>'), ('<tr>', '</tr>'), ('x\n\n', ''), (' ', ' '), ('<a>', '</a>'), ('<td>', '</td>'), ('<i>x</i>', ''), ('<dt>', '</dt>'), ('@list::join(`, `) [', ']'), ('[a, ', ']'), ('<summary>', '</summary>'), ('<figcaption>', '</figcaption>'), ('<option>', '</option>'), ('<caption>', '</caption>'), ('<ol>', '</ol>'), ('<span>', '</span>'), ('<section>', '</section>'), ('<thead>', '</thead>'), ('<source>', ''), ('@dict::new(k=', ').')],
  ['x', '', '<p>y</p>', '<b>y</b>', 'x\n\ny', '<br>', '<hr>', '<li>z</li>', '<div>y</div>', '<td>z</td>', '5', '.', 'x <p>y</p> z', '<ul><li>q</li></ul>', '[a, <p>b</p>]', '<!-- c -->', '<head></head>', '`c`', '<img>', '<h2>h</h2>', '[[a, b], [c]]', '@dict::new(a=1, b=x).', '<tr><td>x</td></tr>', '<script>s</script>', '``` \n ```', '<a><p>q</p></a>', '<dd>d</dd>', '{<i>a</i>\n\n<i>b</i>}', '[<li>a</li>, b]', '<title>t</title>', '<style>s</style>', '<link>', '<legend>l</legend>', '<tfoot>f</tfoot>', '<pre>p</pre>', '[]', '@list::map(@fn $x -> <li>$x</li>) [a, b]', 'True', '<blockquote>q</blockquote>', '<meta>'], quick=[39, 8, 24]),
 'wrap': prog(
  ['@let(v={a <b>c</b>}, n=., h=<hr>, e={}, l=[1, <p>z</p>])...\n'],
  [('', ''), ('<div>', '</div>'), ('<section>', '</section>'), ('<li>', '</li>'), ('{', '}'), ('<a>', '</a>'), ('@block::from {', '}'), ('<blockquote>', '</blockquote>'), ('<td>', '</td>'), ('<body>', '</body>'), ('@let(q={', '}) $q'), ('<p>', '</p>'), ('@match 1 {_ -> {', '}}')],
  ['x', '<b>x</b>', '<p>x</p>', ' ', '', '<br>', '$v', '`c`', '[a, b]', '[<p>a</p>, b]', '5', '$h', '$n', '$e', '<i></i>', '$l'],
  ['', ' ', '\n', '\n\n', ' \n \n ', ' # c\n', '\n\n\n', '<!-- c -->'],
  ['y', '<i>y</i>', '<hr>', '', '# c\n', '<div>y</div>', '.', '[a, <hr>]', '$v', '$h', '"$v"', '<a><hr></a>'],
  ['', '\n\n', ' z', '\n\nz', '<p>z</p>', '\n\n ', '$h'], quick=[1, 6, 8, 4, 7, 5]),
 'seq': prog(
  [SHOW],
  ['@let(v=%s)...' % v for v in ['{}', '{ }', '{x}', '{x y}', '<b>x</b>', '{x<b>y</b>}', '[a, b]', '.', '{ x}', '"x"', '5', '{<b>x</b> <b>y</b>}', "''", '{<p>a</p>\n\n<p>b</p>}', '{x }', '@match {<p>a</p>b<p>c</p>} {{_ *$q} -> {$q}, _ -> {}}', '{{x}{ }{y}}', '@list::join [x, ` `, y]', '<br>', '{\n\nx}', '@match {<b>x</b>y<i>z</i>} {{*$q _} -> {$q}, _ -> {}}', '" "', '{<!-- c -->}', '``` \n ```']],
  ['@let(w=%s)...' % v for v in ['{}', '{ }', '{x}', '<b>x</b>', '{y <i>z</i>}', '[c]', '" "', '{$v}', '{$v$v}', '{ $v }', '[$v, $v]', '@list::join [$v, $v]', '{x$v}', '{$v<i>k</i>}', '{\n$v}', '@match {$v<hr>} {{*$q _} -> {$q}, _ -> {N}}']],
  ['{@show {$v$w}}', '{@show {$v $w}}', '@show @list::html_nodes {$v$w}', '@match {$v$w} {$v -> {same}, {$a *$b} -> {@show $a/@show {$b}}, {} -> {e}, $z -> {@show $z}}', '@show @list::join(`-`) [$v, $w, $v]', '@typeof {$w$v}', '<i>$v$w</i>', '@match $v {{*$a $b} -> {@show {$a}/@show $b}, $z -> {@show $z}}', '@show @html::escape_html {$v <i>$w</i>}', '@match {$v$w} {{$x: str *$y} -> {@show $x+@show {$y}}, _ -> {no}}', '@match [$v, $w] {[$x, $x2] -> {@match $x {$x2 -> {eq}, _ -> {ne}}}}', '@match {$v{$w$v}} {{{$v$w}$v} -> {assoc}, _ -> {not}}', '{@html::is_empty {$v$w} @html::is_whitespace {$v$w}}', '@list::len @list::html_nodes {$v $w}', '@match {$w} {{$w} -> {one}, _ -> {other}}', '@match {$v$w$v} {{$a *$b $c} -> {@show $a,@show {$b},@show $c}, $z -> {Z@show $z}}', '{$v$w}', '@show [$v, {$v}, {{$v}}]'], quick=[1, 24, 8, 18]),
 'render': prog(
  [SHOW + '@let(v=`<v>"\'&`, e={<b>k</b>}, n=., t=`s`)...\n'],
  [('', ''), ('<p>', '</p>'), ('<b id=`q` ', '>z</b>'), ('<a href="', '">z</a>'), ('<div title=', '>z</div>'), ('<i x?=', '>z</i>'), ('{', '}'), ('<pre>', '</pre>'), ('<code>', '</code>'), ('<b **@dict::new(a_b=', ').>z</b>'), ('<script>', '</script>'), ('<style>', '</style>'), ('<title>', '</title>'), ('<textarea>', '</textarea>'), ('<img alt=', '>'), ('<x_y a_b_c=', '/>'), ('<$t ', '>z</>'), ('<b a_=', '>_</b>')],
  ['`<&>`', '`"q"`', "`it's`", '"<b>"', '``` \n ```', '`é`', '"&lt;"', "''", '5', '.', 'x', '$show', '[a]', '{&amp;}', '\\<', '&nbsp;', '"&#34;x"', 'True', 'checked', 'k_l=`m`', 'k=x k=y', '"` `"', '\\x3c', '<br>', '--', '"a&amp;b;c"', '{<i>"</i>}', '&quot;', '$v', '$e', '$n', '"$v"', 'a=$v b', 'id=`r`', '`</script>`', '`<!--`', '\\u00a0', "`'`", '`]]>`', '<!-- -- -->', '`\ue000`', '`\x7f`', 'a=. b?=. c?=$v', '**@dict::new(x=1).', 'c=5 d=True', '<!DOCTYPE html>', '"\\$v\\""', '`a\nb`', '  x  y  '],
  ['', ' ', '\n\n', ' y', '$v'], quick=[1, 18, 49, 2]),
 'attr': prog(
  [SHOW + '@let(d=@dict::new(id=`i`, x=`1`)., e=@dict::new(y=., z_w=`2`)., t=`b`, v=`v`, n=.)...\n'],
  ['<b', '<$t', '<b id=`a`', '<br', '<b x=$v', '<b y?=$n', '<@html::tag_name <i>x</i>', '<b **$d'],
  ['', ' id=$v', ' x', ' y=$n', ' y?=$v', ' z_w="$v-$v"', ' **$d', ' **$e', ' **@dict::new.', ' class=q', ' ID=`u`', ' x=5', ' y?=$n', ' id'],
  ['', ' x=`3`', ' y', ' **$d', ' **$e', ' id', ' y?=`4`', ' w=`<">`', ' x?=.', ' z_w'],
  [('>', '</>'), ('/>', ''), (' />', ''), ('>x', '</b>'), ('\n>x', '</>')],
  ['', '@match 1 {_ -> <i>y</i>}'], quick=[1, 8, 14, 10, 3, 1]),
 'pat': prog(
  [SHOW],
  ['@match %s {' % v for v in ['<b id=q class=`r s`>x</b>', '<b id=q>x<i>y</i>z</b>', '<b/>', '{<b>x</b><b>y</b><b>z</b>}', '[[1, 2], [3]]', '[`a-b`, `c`]', '@dict::new(a=[1, 2], b=<i>z</i>).', '<ul>[a, b]</ul>', '[1, 2, 3, 4]', '{x<hr>y}', '[@dict::new(k=1)., @dict::new(k=2).]', '"k=v; w"', '<p>a</p>']],
  ['%s -> {1 ' % q for q in ['<b $k>_</b>' if False else '<b id=$a class=$b ...>$c</b>', '<$a id=$b **$c>_</>', '<b **$a>{$b *$c}</b>', '<b ...>{*$a $b *_}</b>' if False else '<b ...>{*$a $b}</b>', '{<b>$a</b> *$b}', '{$a $b $c}', '{$a *$b $c}', '{*$a <hr> $b}' if False else '{$a <hr> $b}', '[[$a, *_], *$b]', '[[*$a], [$b]]', '["$a-$b", $c]', '[_, *$a, $b]', '[$a, $b, *$c]', '(a=[$a, *$b], b=$c)', '(b=<i>$a</i>, **$b)', '<ul>{$a $b}</ul>', '<ul>{<li>$a</li> *$b}</ul>', '[(k=$a), (k=$b)]', '[(k=1), *$a]', '"$a=$b; $c"', '"$a; $b"', '<_ ...>$a</>', '<p>_: $a</p>' if False else '<p>$a: inline</p>', '$a', '[*$a: int list, 4]', '<b id=q ...>$a</b>' if False else '<b id=`q` ...>$a</b>', '<b id=_>$a</b>', '<b/>', '<b>.</b>', '<b>{}</b>']],
  ['@show [%s]}, ' % q for q in ['$a', '$a, $b', '$a, $b, $c', '']],
  ['_ -> {n}}', '[*$a] -> {L@show $a}, {$a *$b} -> {S@show $a|@show {$b}}, _ -> {n}}', '<$a ...>$b</> -> {T@show $a@show $b}, (**$a) -> {D@show $a}, _ -> {n}}']),
 'lex3': prog(CHARS, CHARS, CHARS[:20], quick=[54, 54, 1]),
 'lex2': prog(['x ', '{', '@f ', '<b ', '"', '@match x {', '(', '$x', '[1, ', '@fn f '], CHARS, CHARS, quick=[4, 54, 12]),
 'list': prog(
  [SHOW],
  ['@let(v=%s)...' % v for v in ['[]', '[1]', '[1, 2]', '[1, 2, 3, 4]', '[b, a, c]', '[[1], [2, 3]]', '@list::slice(1) [1, 2, 3, 4]', '[., 1, True]', '[2, 1, 2, 1]', '@match [0, 1, 2, 3, 4] {[_, *$m, _] -> $m}', '[`é`, e, z, `E`]', '@match [9, 8, 7, 6] {[_, *$m] -> @match $m {[*$q, _] -> $q}}', '[[], [x], []]', '[`b1`, a2, b0, a1]', '@list::reversed [3, 1, 2]', '@match [[1, 2], [3], [4]] {[*$m, _] -> $m}', '[True, False]', '@dict::items @dict::new(a=1, b=x).', '[3, -1, 10, 2]']],
  ['@show @list::slice(%s) $v' % a for a in ['0', '1', '-1', '0, 1', '0, -1', '-2, -1', '5', '0, 9', '3, 1', '-9', '0, 0', '-3, 3', '2, 2', '1, .', '-9, -8', '1, -1', '2, -1', '-2', '0, -9']] +
  ['{%s}' % ('@let(e=$v::%s) {@show $e}' % i) for i in ['0', '1', '-1', '-2', '9', '-9', '3', '-3']] +
  ['@show @list::get(%s) $v' % i for i in ['0', '-1', '2', '-4', '4']] +
  ['@show @list::%s $v' % f for f in ['len', 'is_empty', 'sorted', 'sorted(reversed=True)', 'sorted(key=$str::from)', 'map($typeof)', 'filter(@fn $x -> @bool::negate @bool::from $x)', 'filter', 'any($bool::from)', 'all($bool::from)', 'find($bool::from)', 'join(`-`)', 'join', 'sorted(key=@fn $x -> 0)', 'sorted(key=@fn $x -> 0, reversed=True)', 'sorted(key=@fn $x -> @match $x {1 -> 2, _ -> 1})', 'sorted(key=@fn $x -> @match $x {1 -> 2, _ -> 1}, reversed=True)', 'map(@fn $x -> [$x, $x])', 'filter(@fn $x: int -> True)', 'flat', 'reversed', 'contains(1)', 'contains(a)', 'contains([1])', 'enumerate', 'enumerate(from=3)', 'enumerate(from=-1)', 'sorted(key=$list::len)', 'sorted(key=@fn $x: int -> @int::negate $x)', 'map($int::negate)', 'find(@fn $x -> @match $x {2 -> True, _ -> False})', 'all(@fn $x -> @match $x {2 -> True, _ -> False})', 'any(@fn $x -> 1)', 'map(@fn $x -> @nosuch $x)', 'sorted(key=@fn $x: str -> @str::len $x)']] +
  ['@match $v {[%s] -> {@show [%s]}, _ -> {n}}' % (p, q) for p, q in [('$a, *$b', '$a, $b'), ('*$a, $b', '$a, $b'), ('$a, *_, $b', '$a, $b'), ('$a, $b', '$a, $b'), ('_, *$a, $b', '$a, $b'), ('_, _, *$a', '$a'), ('*$b, $a, _', '$a, $b'), ('*$a', '$a'), ('*$a: int list', '$a')]] + ['@match $v {$v -> {same}}', '@show [*$v, 0, *$v]', '@show [$v, $v]', '@let(f=@fn(*$_r) . -> {@show $_r}) @f(*$v).', '@let(f=@fn($_a, *$_r) . -> {@show [$_a, $_r]}) @f(*$v, 5).'],
  ['', '@match $v {[_, *$v] -> {@show @list::slice(0) $v@show @list::slice(1, 2) $v@show @list::reversed $v@show @list::len $v@show $v}, _ -> {}}']),
 'dict': prog(
  [SHOW],
  ['@let(d=%s)...' % v for v in ['@dict::new.', '@dict::new(a=1).', '@dict::new(a=1, b=x).', '@dict::new(b=., a=[1]).', '@dict::new(**@dict::new(k=1, a=2)., z=3).', '@match @dict::new(a=1, b=2, c=3) . {(b=_, **$r) -> $r}', '@dict::new(k=@dict::new(k=5).).', '@match <br> {<br **$r> -> $r}', '@match <b id=q a=``` ```>x</b> {<b **$r>_</b> -> $r}', '@dict::new(a=1, **@dict::new(a=2).).', '@dict::new(a_b=1, A=2).']],
  ['@show @dict::%s $d' % f for f in ['len', 'is_empty', 'keys', 'values', 'items', 'get(a)', 'get(k)', 'get(`a`)', 'get(``` ```)', 'get(1)']] + ['{@let(e=$d::%s) {@show $e}}' % k for k in ['a', 'k', 'b', 'k::k', 'len', 'zz']] +
  ['@show @dict::new(%s).' % k for k in ['z=0, **$d', '**$d, z=0', '**$d', 'a=7, **$d', '**$d, **$d']] + ['@match $d {(%s) -> {@show [%s]}, _ -> {n}}' % x for x in [('a=$x', '$x'), ('a=$x, **$y', '$x, $y'), ('**$y', '$y'), ('', ''), ('a=1, b=$x', '$x'), ('a=_, b=_', ''), ('k=(k=$x)', '$x'), ('a=$x: int, **$y', '$x, $y'), ('b=$x, a=$y', '$x, $y')]] + ['@let(f=@fn(**$w) . -> {@show $w}) @f(**$d).', '@let(f=@fn($a?, **$w) . -> {@show [$a, $w]}) @f(**$d).', '@let(f=@fn($a) . -> {@show $a}) @f(**$d).', '<b **$d>y</b>', '<b id=`z` **$d>y</b>', '@attributes(**$d) <b>y</b>', '{$d}', '@match [$d] {[$d] -> {same}}', '@typeof $d', '@list::map(@fn $k -> {$k=@show @dict::get($k) $d,}) @dict::keys $d'],
  ['', '@show $d']),
 'arith': prog(
  [SHOW],
  ['@let(a=%s)...' % v for v in ['0', '1', '-1', '9223372036854775807', '-9223372036854775808', '4611686018427387904', '-5', '`12`', '.', '9223372036854775808']],
  ['@let(b=%s)...' % v for v in ['0', '1', '-1', '9223372036854775807', '-9223372036854775808', '4611686018427387904', '-4611686018427387904', '[1]', '2', '-9223372036854775807']],
  ['@int::add($a, $b).', '@int::add($a, $b, $a).', '@int::add($b, -1, $a).', '@int::negate $a', '@int::negate @int::add($a, $b).', '@int::add(*[$a, $b]).', '@bool::negate @bool::from $a', '@show [$a, $b]', '@match $a {$b -> {same}, 0 -> {z}, -1 -> {m}, _ -> {o}}', '@show @list::slice($a, $b) [1, 2, 3]', '@show @list::get($a) [1, 2, 3]', '@int::add(@int::parse @str::from $a, $b).', '@show @list::sorted [$a, $b, 0]', '@int::add(@list::len [x], $a).', '@int::add($a).', '@int::add.', '@bool::and(@bool::from $a, @bool::from $b).', '@bool::or(@bool::from $a, @bool::from $b).', '@show @list::enumerate(from=$a) [x, y]', '@str::unique_id(max_length=$a) foo', '@show @list::sorted(key=$int::negate) [$a, $b, 0]', '@code(language=papyri, code_block=True, first_line_no=$b) `x`'], quick=[1, 8, 7, 22]),
 'str': prog(
  [SHOW],
  ['@let(s=%s)...' % v for v in ["''", '`a`', '`ab`', '` a b `', '`aXbXc`', '`é`', '`ÀB`', '`12`', '`-7`', '`a,b,,c`', '`aaa`', '`ß`', '`0x1`', '` `', '"a\\nb"', '`9223372036854775808`', '`\ue000x\ue002`', '`+5`', '`<&>"`', '`aé-xéb`', '`xyXYabc`', '`\u2003x\u00a0`', '`a.b*c`', '"\\\\d"', '`ababab`', '`İ`', '`ΟΔΟΣ ΑΣ.`', '`e\u0301ŉ`']],
  ['@show @str::%s $s' % f for f in ['len', 'upper', 'lower', 'trim', 'is_empty', 'is_whitespace', 'escape_html', 'split(`X`)', 'split(`,`)', "split('')", 'split(`a`)', 'split(`aa`)', 'split(` `)', 'split(`é`)']] + ['@show @str::starts_with($s, `%s`).' % x for x in ['a', 'ab', 'X', 'é']] + ["@show @str::starts_with($s, '').", '@show @str::ends_with($s, `c`).', '@show @str::ends_with($s, `b`).', '@show @str::ends_with(`a`, $s).', '@show @int::parse $s', '@show [@str::from $s, @bool::from $s]', '@show "$s-$s x"', '@show "<$s>"', '@show @list::sorted [$s, `b`, `é`]', '@match $s {`ab` -> {lit}, $s -> {same}}', '@dict::get($s) @dict::new(a=1, ab=2).', '$s'] +
  ['@show @regex::%s(@regex::compile `%s`) $s' % (f, x) for f in ['find', 'find_all', 'count', 'split', 'test'] for x in ['a', 'a*', '(a)(b)?', '[a-c]+', '(?P<n>[aé])', '^a|b$', 'x??', '(?P<p>a)|(?P<q>b)', '(a|ab)(c|X)?', '\\w+', '[^a-c]', '.', '\\s*$', '(a+)+b?', 'b{2}|a{1,2}']] +
  ['@match $s {"%s" -> {%s}, _ -> {n}}' % p for p in [('a$x', '@show $x'), ('$x,', '@show $x'), ('${x}b', 'x'), ('$x-$y', '@show [$x, $y]'), ('$x', '@show $x'), ('$x $y', '@show [$x, $y]'), ('', 'e'), ('$x$y', '@show [$x, $y]'), ('a$x,$y', '@show [$x, $y]'), ('a.$x', '@show $x'), ('$x ', '@show $x'), (' $x', '@show $x'), ('a$_', 'k'), ('${x}X$y', 'x'), ('$x\\xe9$y', '@show [$x, $y]')]], quick=[1, 17, 999]),
 'diag': prog(
  [('', ''), ('é\n', ''), ('{\n  ', '}'), ('@fn g $y -> {\n', '}\n@g 1 @g 2'), ('<b>', '</b>'), ('@list::map(@fn $y -> {', '}) [1, 2]'), ('[', ']'), ('"\ue000" ', ''), ('@let(q=5) {', '}'), ('@match 5 {_ -> {', '}}'), ('\t', '\r\n'), ('@fn g . -> {@fn h . -> {', '}\n@h.}\n@g.')],
  [('', ''), ('x ', ''), ('', ' @raise `w`'), ('老 ', ''), ('<i>', '</i>'), ('@let(k=@fn $z -> {\n', '}) {@k 3}'), ('$nosuch ', ''), ('@let(a=1, a=2) {', '}'), ('@let(x=1, x2=2)...\n@let(x=3)...\n', ''), ('# c\n', '# d'), ('``` \n ``` ', '')],
  ['$nosuch', '@nosuch 1', '@raise `m`', '<b>x', '@str::len(1) 2', '@let(a=1)...\n@let(a=2)...\n$a', '@fn f', '@let(z=[5]) $z::1', '[1]', '@str::upper(1, 2).', '&nosuch;', '\\x1', '<p></i>', '@typeof(a=1, a=2).', 'ok', '@int::add(9223372036854775807, 1).', '}', '@match 1 {2 -> x}', '@fn f($a, $a) . -> 1', '<p><p>.</p></p>', '"$nosuch é $nosuch2"', '@typeof(1).', "'", '`', ')', '@export(b=1).', '<b id=`x` id=`y`>.</b>', '<$nosuch>.</>', '@include `nosuch`', '@regex::compile `(`', '@int::parse `x`', '@html::parse `<`', '@file::write(`x`) y', '<br>x</br>', '@f(1, *[2]).', '@let(b=1) 5', '@match 1 {$q: int? list? -> 1}', '-', '@', '#', '<!DOCTYPE html>', '<!-- x', '9223372036854775808', '@code(code_block=5) `x`', '@list::get(5) [1]', '@dict::new(a=1, **@dict::new(a=2).).', '<table>[x]</table>', '@str::unique_id(max_length=0) a'], quick=[10, 6, 48]),
 'tb': prog(
  ['@fn f($_n) $x -> @match $x {[] -> %s, [_, *$y] -> {@f(@int::add($_n, 1).) $y}}\n' % e for e in ['@raise `end`', '$nosuch', '{ok}', '@typeof(1).', '@str::len [1]', '@list::map(@fn $q -> @raise $q) [a]', '@list::sorted(key=@fn $q -> @nosuch.) [1, 2]', '{@include `x` @raise `b`}']],
  [('', ''), ('@fn g $x -> @f(0) $x\n', ''), ('@let(f=$f) {', '}'), ('é ', ''), ('@implicit(language=none) {', '}')],
  ['@f(0) [%s]' % ', '.join(['1'] * n) for n in [0, 1, 2, 3, 7, 11, 15, 16, 17, 24]] + ['@g [1, 2]', '@list::map(@fn $z -> @f(5) $z) [[], [1], [1, 2, 3]]', '@function::call($f, 0) [1]', '@let(h=@function::bind($f, 1).) @h [1, 2]', '@list::map($list::len) [[1], 2]', '@list::any(@fn $z -> @f(0) [$z]) [a, b]', '@let(k=@fn $x -> {\n\n  @f(2) $x}) {@k [1]}', '<b>{@f(1) [1]}</b>', '{@f(0) x} @f(0) []', '@match @f(1) [2] {_ -> {k}}'],
  ['', ' @f(0) []', '\n$zz']),
 'gram': prog(
  ['@let(a=[1, 2])... @fn f $x -> {$x}\n' + x for x in ['', 'x ', '{', '<b>', '[', '@match 1 {_ -> ']] + [''],
  ['$a', '@f', '@f(1)', '5', '-5', "'s'", '"a $b c"', '`v`', '```\nv\n```', '<i>x</i>', '<br>', '.', '...', 'x', '{y}', '[1, 2]', '@let(a=1)', '@fn $z', '@match 2', '@export(a=1)', '# c', '<!-- c -->', '&lt;', '\\@', '_', 'True', '$a::b', '@a::b', '$a::-1', '@fn k . ->', '<!DOCTYPE html>', '@implicit(a=2)...', '@export @fn e .', '"', '<b', '*$a', '**$a', '$a?', '<$a>', '</>', '--', '...'],
  ['', ' ', '\n', '\n\n', '.', '(', ')', ',', ' -> ', '{', '}', ']', '>', ' = ', ': int', '|', '"', '::', '?', '...', ' x', '-'],
  ['', 'y', '{z}', '.', ')', '}', ']', '</b>', '$a', '5}', '"', '</>', '\n'], quick=[4, 41, 22, 4]),
 'regex': prog(
  [SHOW],
  ['@let(r=@regex::compile `%s%s`)...\n' % (x, y) for x in ['a', 'a*', '(a)', '(a|b)', '[ab]', '.', '\\\\w', '(?P<n>a)', '(ab)?', 'a+?', '^a', 'b$', '(?:ab)', 'x{1,2}', '[^a]', '(a)|(b)', '\\\\s', '(?:)', '\\\\.', '(', '[b-a]', '(?P<n>a)(b)', '(?P<n>a)(?P<n>b)', '(a*)(b)'] for y in ['', 'b', '*', '(c)?', '|c', '+', '?', '$', '{2}', '.*?c']],
  ['@show @regex::%s($r) `%s`' % (f, x) for f, x in [('find', 'abc'), ('find', 'xaab'), ('find_all', 'ababc'), ('find_all', 'a\\xe9b'), ('count', 'aaa'), ('split', 'a,b.a'), ('test', 'c'), ('find', 'é a'), ('split', 'abcabc'), ('find_all', 'aabbc')]] + ["@show @regex::%s($r) ''" % f for f in ['find', 'find_all', 'count', 'split', 'test']] + ['@typeof @regex::find($r) `ab`', '@match $r {$r -> {same}}']),
 'native': prog(
  [SHOW + '@let(fx=@fn $q -> $q, r=@regex::compile `a(b)?`, d=@dict::new(a=1)., h=<b id=`x`>y</b>)...\n'],
  ['@show @%s%s' % (n, a) for n, aa in [('bool::and', ['(True, False)', '(True)', '(1, True)']), ('bool::from', ['']), ('bool::negate', ['']), ('int::add', ['', '(1)', '(1, 2, 3)', '(*[1, 2], 4)']), ('int::negate', ['']), ('int::parse', ['']), ('str::ends_with', ['(`ab`, `b`)', '(`b`)']), ('str::escape_html', ['']), ('str::from', ['']), ('str::is_empty', ['']), ('str::is_whitespace', ['']), ('str::len', ['']), ('str::lower', ['']), ('str::split', ['(`a`)', '']), ('str::trim', ['']), ('str::unique_id', ['', '(max_length=2)']), ('str::upper', ['']), ('regex::compile', ['']), ('regex::find', ['($r)', '(`a`)']), ('regex::test', ['($r)']), ('function::bind', ['($fx)', '(1)', '($typeof)']), ('function::name', ['']), ('html::escape_html', ['']), ('html::is_empty', ['']), ('html::is_whitespace', ['']), ('html::tag_name', ['']), ('list::all', ['($fx)', '(1)']), ('list::contains', ['(1)', '(a)']), ('list::enumerate', ['', '(from=2)']), ('list::filter', ['', '($fx)']), ('list::find', ['($fx)']), ('list::flat', ['']), ('list::get', ['(0)', '(-1)']), ('list::html_nodes', ['']), ('list::is_empty', ['']), ('list::join', ['', '(`,`)', '(<br>)']), ('list::len', ['']), ('list::map', ['($fx)', '($str::len)', '(1)']), ('list::slice', ['(1)', '(-1, 5)']), ('list::sorted', ['', '(key=$fx, reversed=True)']), ('list::reversed', ['']), ('dict::get', ['(a)']), ('dict::is_empty', ['']), ('dict::items', ['']), ('dict::keys', ['']), ('dict::len', ['']), ('dict::new', ['(a=1)', '(**$d, b=.)', '']), ('dict::values', ['']), ('typeof', ['']), ('inline::from', ['']), ('block::from', ['']), ('attributes', ['(id=`q`)', '(id=.)']), ('class', ['(`k`)']), ('style', ['(`s`)']), ('numbered', ['']), ('footnote', ['']), ('bold', ['']), ('blockquote', ['', '(cite=`u`)']), ('kbd', ['']), ('h1', ['']), ('href', ['(`u`)']), ('image', ['(alt=`x`)', '']), ('code_block', ['', '(language=papyri)']), ('function::call', ['($fx)', '($str::len)']), ('code', ['', '(language=papyri)'])] for a in aa],
  [' ' + v for v in ['.', 'True', '5', '-1', '`ab`', "''", '`12`', 'foo', '{a <b>c</b>}', '<p>x</p>', '$h', '<ul>[a, b]</ul>', '[]', '[1, 2]', '[b, a]', '[<b>x</b>, y]', '[., True]', '[[1], [2]]', '$d', '@dict::new.', '$fx', '$r', '$str::upper', '{}', '<b class=`c` style=`t`>x</b>', '[True, False]', '[$fx]', '[@dict::new(a=b).]', '9223372036854775807', '{x\n\ny}']]),
 'code': prog(
  [('```papyri\n', '\n```'), ('`', '`'), ('@code(language=papyri, code_block=True, first_line_no=7) ```\n', '\n```'), ('@implicit(language=papyri)...\n`', '`'), ('```none\n', '\n```'), ('```nosuchlang\n', '\n```'), ('@code(language=papyri, first_line_no=2) ```', '```')],
  ['', '  ', '\t', '(', '[({', '# c ', '"', 'x\n', '\n'],
  ['x', ')', '})]', '$x', '@fn f', 'https://x.y', '# https://q/ z', '"a $b"', '<b x=y>', 'True', '&lt;', '', '12', "'", '\\n', '-- ...', '$x: int', '@let(', '<!-- c -->'],
  ['', '\n  y', '\n(', '\n)', ' ', '\n\n', '"', '\nhttps://z', '}'], quick=[4, 9, 19, 4]),
 'text': prog(
  [('', ''), ('<p>', '</p>'), ('<ul><li>', '</li></ul>'), ('<table><tr><td>', '</td></tr></table>'), ('<div>', '</div>'), ('<pre>', '</pre>'), ('<b>', '</b>'), ('<dl><dd>', '</dd></dl>'), ('<blockquote>', '</blockquote>'), ('<h1>', '</h1>'), ('<a href="u">', '</a>'), ('<section>', '</section>'), ('<x_y>', '</x_y>'), ('<form>', '</form>'), ('<table><caption>c</caption><tr><th>h</th><td>', '</td></tr></table>'), ('<ol><li>o</li><li>', '</li></ol>'), ('<select><option>', '</option></select>'), ('<div><p>', '</p></div>'), ('<button>', '</button>'), ('<span><i>', '</i></span>')],
  ['x', '<br>', '<hr>', '<b>x</b>', '&lt;', '', 'x\n\ny', '<p>a</p>', '<img src=`a` alt=`b`>', '<script>s</script>', '<i></i>', '`a<b`', '<div>y</div>', '<title>t</title>', '[a, b]', '<a><p>q</p></a>', '@dict::new(k=1).', '``` \n ```', '"&"', '<p></p>', '<hr><hr>', '<!DOCTYPE html>', '<span>m</span>', '<wbr>'],
  ['', ' z', '\n\nz', '<p>b</p>', '<br>', '<i>k</i>', '\n\n<hr>', '<div></div>'], quick=[12, 17, 5]),
 'uidp': prog(
  ['@str::unique_id %s ' % b for b in ['foo', '`foo bar`', '`é`', "''", '`1`', '`Foo`', '`foo_2`']], ['@str::unique_id(max_length=%s) %s ' % (m, b) for m in ['3', '4', '1', '0', '-1', '9'] for b in ['foo', '`foobar`']], ['@str::unique_id %s ' % b for b in ['foo', '`foo bar`', 'f']], ['{@str::unique_id foo} @str::unique_id fo', '@list::map($str::unique_id) [foo, foo, foo_2]', '<b id=new>x</b>', '@attributes(id=new) <b>x</b>']),
 # histories
 'uid': ('MCUid', {'asks': [{'base': b, 'max': m} for b in ['foo', 'foo_2', 'Foo bar', 'é', ''] for m in (4, 128)] + [{'base': 'ab', 'max': 1}, {'base': 'ab', 'max': 3}], 'depth': 3}, {'asks': [{'base': b, 'max': m} for b, m in [('foo', 128), ('foo', 4), ('foo_2', 128), ('Foo bar', 5), ('', 9), ('é', 3), ('fo', 3)]], 'depth': 4}),
 'out': ('MCOut', {'bases': ['out', '/w/out', 'a/../out', '.', '/', '..', 'out/sub/'], 'paths': ['a', 'b/c', '../a', './a', '/a', '/w/out/a', 'out/a', '', '.', '..', 'b/../a', 'b/../../a', 'x/../../out/a', '/w/outside', 'a/', '..a'], 'depth': 2, 'cwd': []}, {'bases': ['out', '/w/out', 'a/../out', '.', '/', '..'], 'paths': ['a', 'b/c', '../a', './a', '/a', '/w/out/a', '', '..', 'b/../../a', 'x/../../out/a', '/w/outside'], 'depth': 2, 'cwd': []}),
 'html': ('MCHtml', {'texts': ['', ' ', 'x', '\n', 'y '], 'size': 6}, {'texts': ['', ' ', 'x', '\n'], 'size': 5}),
}
def SY(n, s): return {'op': 'synth', 'name': n, 'src': s, 'path': ''}
def LD(p): return {'op': 'load', 'path': p, 'name': '', 'src': ''}
def CA(p): return {'op': 'cached', 'path': p, 'name': '', 'src': ''}
TAKE = {'op': 'take', 'path': '', 'name': '', 'src': ''}; RESET = {'op': 'reset', 'path': '', 'name': '', 'src': ''}
ATEXT = ['a', '@import `b`', '@include `b`', '@export @let(k=1)...\n@include `c`', '@let(m=@import `c`)... $m::k', '$nosuch', '@include `./b`\n\n@include `c`', '@include `a`']
BTEXT = ['@export @let(k=2)...b', '@include `c`', '@include `a`', '@raise `x`', '@file::write(`o`) {b}']
CTEXT = ['@export @let(k=3)...c', '@import `b`', '@export @fn w . -> @file::write(`w`) {c}']
MODELS['mods'] = ('MCCtx', {'names': [['a.papyri'], ['b.papyri'], ['c.papyri']], 'texts': [ATEXT, BTEXT, CTEXT], 'dirs': [[]], 'cwd': [], 'hasout': False, 'outdir': '',
    'steps': [LD('a.papyri'), CA('a.papyri'), CA('./b.papyri'), SY('<s>', '@include `a` @include `b`'), RESET], 'depth': 2}, {'names': [['a.papyri'], ['b.papyri'], ['c.papyri']], 'texts': [ATEXT, BTEXT[:4], CTEXT[:2]], 'dirs': [[]], 'cwd': [], 'hasout': False, 'outdir': '',
    'steps': [LD('a.papyri'), CA('./b.papyri'), SY('<s>', '@include `a` @include `b`')], 'depth': 2})
WTEXT = ['@file::write(`f`) {a}', '@include `b`\n\n@file::write(`sub/g`) {a2}', '@let(m=@import `b`)...\n@file::write(`../h`) {x}', '@import `nosuch`\n\n@file::write(`i`) {i}', '@let(m=@import `b`)...\n@m::w.']
WB = ['@file::write(`b`) {b}', 'b', '$nosuch', '@export @fn w . -> @file::write(`w`) {w}']
WSTEPS = [LD('a.papyri'), CA('b.papyri'), SY('<s>', '@file::write(`s`) {s}'), TAKE, RESET, SY('<t>', '@import `b`\n\n@file::write(`t/../../u`) {s}'), LD('nosuch.papyri'), SY('<u>', '@file::write(`k/../s`) {@import `nosuch`}')]
MODELS['writes'] = ('MCCtx', {'names': [['a.papyri'], ['b.papyri']], 'texts': [WTEXT, WB], 'dirs': [[]], 'cwd': [], 'hasout': True, 'outdir': 'out', 'steps': WSTEPS, 'depth': 3}, {'names': [['a.papyri'], ['b.papyri']], 'texts': [WTEXT, WB], 'dirs': [[]], 'cwd': [], 'hasout': True, 'outdir': 'out', 'steps': WSTEPS[:6], 'depth': 2})
MODELS['nowrites'] = ('MCCtx', dict(MODELS['writes'][1], hasout=False, outdir='', depth=2), dict(MODELS['writes'][2], hasout=False, outdir=''))
A_, B_ = 'http://web.test/a', 'http://web.test/b'
def PG(k, b, u=A_): return {'url': u, 'k': k, 'body': b}
DOCT = '<!DOCTYPE html><p id=x>q</p>'
NETQ = ['missing', 'abc', DOCT, '', '<b>']
WEBS = [[], [PG('page', 'abc'), PG('page', DOCT, B_)], [PG('redir', B_), PG('page', 'abc', B_)], [PG('drop', ''), PG('err', DOCT, B_)], [PG('page', DOCT), PG('redir', A_, B_)], [PG('page', ''), PG('drop', '', B_)], [PG('page', '<b>'), PG('redir', 'http://web.test/lost', B_)]]
NTEXT = ['@export @let(k=@net::fetch_raw `%s`)...x' % A_, '@net::fetch_html `%s`\n\n@export @fn f . -> @net::fetch_raw `%s`' % (B_, A_), '@include `n`']
NSTEPS = [SY('<s>', '@net::fetch_raw `%s`' % A_), SY('<t>', '@net::fetch_html `%s` @net::fetch_raw `%s`' % (A_, B_)), CA('n.papyri'), SY('<u>', '@let(m=@import `n`)...\n@match $m {(k=$k) -> $k, (f=$f) -> @f., _ -> none}'), RESET, LD('n.papyri'), SY('<v>', '@net::fetch_raw `file:///x` @net::fetch_html ``` ```'),
          SY('<w>', '@list::map($net::fetch_raw) [`%s`, `nonsense`, `%s`]' % (B_, A_)), SY('<x>', '@fn get $u -> @net::fetch_html $u\n@get `%s`' % B_)]
_NET = {'names': [['n.papyri']], 'texts': [NTEXT], 'dirs': [[]], 'cwd': [], 'hasout': False, 'outdir': '', 'webs': WEBS, 'domq': NETQ, 'steps': NSTEPS}
MODELS['net'] = ('MCCtx', dict(_NET, depth=3), dict(_NET, depth=2))
LA = ['@include `l`', '@let(m=@import `l`, n=@import `sub/b`)... {$m::k $n::k}', '@include `lk/b`\n\n@include `sub/b`', '@include `lk/../c`', '@file::list `.` @file::list `lk`', '@import `bad`\n\n@import `lbad`', '@file::read `l.papyri` @file::read `bad.papyri`', '@include `dir`\n\n@include `lk`']
LB = ['@export @let(k=@str::unique_id foo)...b', '@include `../a`', '@include `c`', '@import `../l`']
LC = ['c', '@include `./a`\n\n@export @let(k=3)...']
MODELS['links'] = ('MCCtx', {'names': [['a.papyri'], ['sub', 'b.papyri'], ['c.papyri'], ['bad.papyri']], 'texts': [LA, LB, LC, ['x\ue0ff']], 'dirs': [[], ['sub'], ['dir.papyri']], 'cwd': [], 'hasout': False, 'outdir': '',
    'links': [{'at': ['l.papyri'], 'to': 'sub/b.papyri'}, {'at': ['lk'], 'to': './sub'}, {'at': ['sub', 'c.papyri'], 'to': '../c.papyri'}, {'at': ['lbad.papyri'], 'to': 'bad.papyri'}],
    'steps': [LD('a.papyri'), CA('l.papyri'), CA('sub/b.papyri'), LD('lk/b.papyri'), SY('<s>', '@include `lk/c`\n\n@include `a`'), CA('lbad.papyri'), LD('bad.papyri'), CA('dir.papyri')], 'depth': 2}, None)
MODELS['links'] = (MODELS['links'][0], MODELS['links'][1], dict(MODELS['links'][1], texts=[LA, LB[:3], LC[:1], ['x\ue0ff']]))
def RUN(paths=(), out=None, u=False, txt=False, iw=False, s=False): return {'op': 'run', 'path': '', 'text': '', 'time': 0, 'a': {'u': u, 's': s, 'iw': iw, 'txt': txt, 'hasout': out is not None, 'out': out or '', 'paths': list(paths), 'stdin': '', 'hasin': False}}
def ED(op, p, text='', time=0): return {'op': op, 'path': p, 'text': text, 'time': time, 'a': 0}
CT = [['a', '', '$nosuch', '@file::write(`w`) {w}', '@let(k=1, k=2)...x'], ['b\n', '@include `../a`', '@raise `e`']]
CS = [RUN(u=True), RUN(out='out'), RUN(out='out', u=True), ED('write', 'a.papyri', 'a2'), ED('touch', 'sub/b.papyri', time=4), ED('rm', 'a.papyri'), RUN(['a.papyri', 'sub'], txt=True), RUN(['*.papyri'], out='out', iw=True), ED('write', 'a.papyri', '$nosuch'), RUN(['nosuch.papyri'], s=True), ED('rm', 'out/a.html'), RUN(out='a.papyri')]
MODELS['cli'] = ('MCCli', {'names': [['a.papyri'], ['sub', 'b.papyri']], 'texts': CT, 'dirs': [[], ['sub']], 'cwd': [], 'steps': CS, 'depth': 3}, {'names': [['a.papyri'], ['sub', 'b.papyri']], 'texts': [CT[0][:4], CT[1][:2]], 'dirs': [[], ['sub']], 'cwd': [], 'steps': CS[:8], 'depth': 2})

# HTML documents; the first slot is the program around one
WALK = SHOW + """@fn one $x -> @match $x {<$t **$a>$c</> -> {($t @show $a @walk $c)}, _: str -> {S@show $x}, _ -> {E}}
@fn walk $x -> @match $x {. -> {}, {$h *$t} -> {@one $h @walk $t}, _ -> {O}}
"""
MODELS['dom'] = prog(
  [('@html::parse ```', '```'), (WALK + '@walk @html::parse ```', '```'), ('@match @html::parse ```', '``` {<html **$a>{$h $b}</html> -> {m $h $b}, {$x *$y} -> {s $x|$y}, _ -> none}'), ('@html::escape_html @html::parse ```', '```')],
  [('<!DOCTYPE html>', ''), ('<!DOCTYPE html>\n<html lang="e"><head><title>T</title></head><body class=k>', '</body>\n</html>\n'), ('<!DOCTYPE html><html><head></head><body>', '</body></html>'), ('<!DOCTYPE html><!-- c --><html>', '</html><!-- d -->'), ('', '')],
  [('<p>', '</p>'), ('<template>', '</template>'), ('<b id="x" CLASS=y>', '</b>'), ('<table><tr><td>', '</td></tr></table>'), ('<pre>\n', '</pre>'), ('<script>', '</script>'), ('<my-x data_k>', '</my-x>'), ('<ul><li>', '</ul>'), ('<svg viewBox="0" x:y="z">', '</svg>'), ('<div a=1 a=2>', '</div>'), ('<textarea>', '</textarea>'), ('<select><option>', '</select>'), ('<x_y>', '</x_y>'), ('<noscript>', '</noscript>')],
  ['x', '<template><i>q</i></template>', '<!-- c -->', '&lt;&amp;', '<br>', '', ' ', '<b>', 'a<p>b', '<img alt>', '\n', '&nbsp;é', '</p>', '<?pi?>', '&#65;', '&bogus;', 'x\n\ny', '<p>q</p>', '<![CDATA[x]]>', '<a><a>', '<template>'],
  ['', 'y', '<!-- e -->', '<p>z', '</div>', ' '], quick=[3, 3, 9, 11, 3])
DOCS = {'dom'}
def documents(slots):
    import itertools
    s = slots[1:]
    return sorted({''.join(a[0] for a in t) + ''.join(a[1] for a in reversed(t)) for t in itertools.product(*s)})

# code in other languages; the first slot names the language
HLANG = ['rust', 'python', 'js', 'html', 'c', 'java', 'css', 'bash']
FORMS = [[('```%s\n' % l, '\n```'), ('@code(language=%s, code_block=True, first_line_no=9) ```\n' % l, '```'), ('@implicit(language=%s)...\n`' % l, '`')] for l in HLANG]
MODELS['hl'] = prog([f[i] for i in range(3) for f in FORMS], ['', '  '],
  ['x = (1', '// https://x.y', '# https://x.y', '"a $b"', '@A(x)', '/* m', 'f(x) { y }', '<p class="a">', ')', "if a && 'c' {", '', '0x1f é [b'],
  ['', '\n', ' ', '\n  '], [')', '*/', ']', '}', '"', '</p>', 'y; // z', ''], quick=[10, 2, 7, 2, 6])
def codes(slots, pv, cases):
    """{source: facts} for each source of the model"""
    import itertools
    todo, q = [], {}
    for t in itertools.product(*slots):
        l = HLANG[slots[0].index(t[0]) % len(HLANG)]
        body = ''.join(a[0] for a in t[1:])
        asked = [(l, cases.fix_indent(x)) for x in (body, '\n' + body)]
        todo.append((t[0][0] + body + t[0][1], asked)); q.update(dict.fromkeys(asked))
    w = pv.Worker(); fs = w.run({'op': 'hl', 'id': 0, 'q': [list(x) for x in q]}, timeout=300)['hl']; w.close()
    by = {}
    for f in fs: by[f['lang'], f['src']] = f
    return {s: [by[x] for x in dict.fromkeys(a) if x in by] for s, a in todo}

def get(name, tier):
    m = get_(name, tier)
    if name in DOCS: m['model']['domq'] = documents(m['model']['slots'])
    return m
def get_(name, tier):
    module, full, quick = MODELS[name]
    if module == 'MCProg': return {'module': module, 'model': {'slots': [s[:q] for s, q in zip(full, quick)] if tier == 'quick' and quick else full}}
    return {'module': module, 'model': quick if tier == 'quick' else full}
