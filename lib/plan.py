"""What is explored for each property: generator profiles of programs, kinds of
other cases (both with weights), and models enumerated by TLC."""
ALL = ('All', 'Warning', 'Error', 'IgnoreAll')
def P(progs, ops=(), mc=(), levels=('Warning',), judge='all', seeds=True, n=None):
    return {'progs': dict(progs), 'ops': dict(ops), 'mc': list(mc), 'levels': levels, 'judge': judge, 'seeds': seeds}
PLAN = {
 'P01': P({'scope': 4, 'scp': 4, 'mixed': 1, 'call': 1, 'match': 1, 'seeds2': 1, 'gmut': 1, 'native': 1, 'bigf': 1}, {'hist': 1}, mc=['scope', 'closure']),
 'P02': P({'call': 4, 'bind': 3, 'native': 3, 'std': 1, 'types': 1, 'scope': 1, 'mixed': 1, 'gmut': 1, 'bigf': 1}, mc=['sig', 'bind', 'native']),
 'P03': P({'types': 4, 'tv': 4, 'call': 1, 'bind': 1, 'stdx': 1, 'list': 1, 'match': 1, 'native': 1}, mc=['types', 'native']),
 'P04': P({'match': 3, 'match_html': 3, 'pm': 5, 'sub': 2, 'mixed': 1, 'gmut': 1, 'attr': 1, 'bigf': 1}, mc=['match', 'seq', 'pat']),
 'P05': P({'content': 4, 'nest': 4, 'tree': 3, 'stdx': 2, 'attr': 1, 'soup': 1, 'match_html': 1, 'bigd': 1}, mc=['content', 'wrap', 'attr']),
 'P06': P({'seq': 4, 'match_html': 2, 'tree': 2, 'content': 2, 'bigd': 1}, {'html': 3}, mc=['seq', 'html']),
 'P07': P({'render': 4, 'attr': 4, 'tree': 2, 'content': 1, 'code': 1, 'std': 1, 'nest': 1, 'bigd': 1}, {'fn': 1, 'cstr': 1}, mc=['render', 'text', 'attr']),
 'P08': P({'mutant': 3, 'gmut': 3, 'space': 2, 'soup': 3, 'attr': 1, 'seeds2': 1, 'content': 1, 'mixed': 1}, mc=['lex3', 'lex2', 'gram']),
 'P09': P({'scope': 1}, {'ctx': 8, 'wr': 2}, mc=['mods', 'links', 'nowrites']),
 'P10': P({}, {'cli': 8}, seeds=False, mc=['cli']),
 'P11': P({}, {'wr': 4, 'outfiles': 3, 'ctx': 2, 'fn': 1, 'cli': 2}, seeds=False, mc=['out', 'writes', 'nowrites']),
 'P12': P({'uid': 3, 'bigu': 1}, {'uid': 4, 'hist': 2, 'fn': 1}, seeds=False, mc=['uid', 'uidp']),
 'P13': P({'list': 6, 'sub': 5, 'native': 3, 'types': 1, 'bigl': 2}, mc=['list', 'arith', 'dict']),
 'P14': P({'mutant': 2, 'gmut': 2, 'soup': 2, 'space': 1, 'scope': 1, 'bind': 1, 'call': 1, 'mixed': 1, 'stdx': 1, 'bige': 1, 'bigf': 1}, {'ctx': 1, 'cstr': 1}, levels=ALL, judge='diag', mc=['diag', 'lex2', 'tb']),
 'P15': P({'soup': 2, 'mutant': 2, 'gmut': 2, 'codel': 1, 'str': 1, 'list': 1, 'native': 1, 'attr': 1, 'types': 1, 'sub': 1}, {'fn': 1, 'hist': 2, 'ctx': 1, 'uid': 1, 'hl': 1}, judge='total', mc=['lex2', 'arith', 'sig', 'native', 'gram']),
 'P16': P({'codel': 5, 'code': 3, 'bigc': 1}, {'hl': 5, 'fn': 1}, mc=['code', 'hl']),
 'P17': P({'str': 8, 'native': 1, 'mixed': 1, 'bigs': 1}, {'fn': 2}, mc=['str', 'regex']),
 'P18': P({'text': 6, 'stdx': 2, 'tree': 2, 'render': 1, 'bigd': 1}, {'dom': 1, 'cli': 1}, mc=['text']),
 'P19': P({}, {'dom': 8}, seeds=False, mc=['dom']),
 'P20': P({}, {'net': 8}, seeds=False, mc=['net']),
}
TOTAL = {'quick': 9000, 'thorough': 120000}
BATCH = 9000
CLI_COST = 2
REJUDGE = 2500
