#!/usr/bin/env python3
"""modeltable.py: the table of models in DESIGN.md (sizes of the spaces, and which checks explore them)"""
import os, sys, math
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import models, plan
WHAT = {
 'scope': 'prelude × group/function/let/match around × declaration × use: nesting, shadowing, exports, implicit',
 'closure': 'functions made in one scope, kept (lets, lists, dictionaries, partial application) and called in another',
 'sig': 'signature shapes × argument lists × content', 'bind': 'partial application in one or two steps × signature × arguments × call',
 'types': 'value × required type × place (parameter, list, dictionary, attribute, default)',
 'match': 'subject × up to three branches', 'pat': 'subject × pattern × pattern (and, or, typed, spread, nested)',
 'content': 'element × element × content', 'wrap': 'sequences of block, inline, text, blank lines inside elements of every content kind',
 'seq': 'two HTML values × an observation of their combination', 'render': 'place × value × what follows: escaping in text and attributes',
 'attr': 'tag × up to three attributes, spreads and duplicates', 'text': 'element × content × what follows, as text',
 'lex3': 'three lexical atoms', 'lex2': 'two lexical atoms inside a construct', 'gram': 'context × construct × connector × ending: error recovery',
 'list': 'list (also parts of lists) × operation × afterwards', 'dict': 'dictionary × operation', 'arith': 'numbers at the edges × operation',
 'str': 'text × operation', 'regex': 'expression × operation × text', 'native': 'every native function × argument shapes × value of every type',
 'diag': 'programs with errors at several places × function depth', 'tb': 'recursion depth × failing operation × caller: tracebacks',
 'code': 'code with brackets, links, strings, indentation', 'uidp': 'programs that request identifiers', 'uid': 'histories of identifier requests (API)',
 'out': 'base directories × histories of requested paths (API)', 'html': 'trees of HTML values combined in every way (API)',
 'mods': 'three files importing one another in all ways × histories of loads', 'writes': 'two files that request output files × histories with take and reset',
 'nowrites': 'the same without an output directory', 'cli': 'two sources × histories of edits, touches, removals and runs with options'}
WHAT['links'] = 'files, links to files and directories, unreadable files × histories of loads'
WHAT['dom'] = 'use × HTML document (around × element × content × after), as parsed'
WHAT['hl'] = 'form × language × indentation × line × line: code in other languages'
WHAT['net'] = 'what answers at two addresses × with access or not × a module × histories of programs and loads'
def size(m):
    if m['module'] == 'MCProg': return math.prod(len(s) for s in m['model']['slots'])
print('| model | module | what is enumerated | states, quick | thorough | checks |\n|---|---|---|---|---|---|')
for n in models.MODELS:
    q, f = models.get(n, 'quick'), models.get(n, 'full')
    ps = ' '.join(p for p in plan.PLAN if n in plan.PLAN[p]['mc'])
    print('| %s | %s | %s | %s | %s | %s |' % (n, q['module'], WHAT.get(n, '?'), size(q) or 'histories', size(f) or 'longer histories', ps))
