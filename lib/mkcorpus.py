#!/usr/bin/env python3
"""Collects the Papyri snippets of the repository's tests as seed sources
(run once; corpus/seeds.json is committed)."""
import re, json, glob
LIT = r'(?:r#"(.*?)"#|r"(.*?)"|"((?:[^"\\]|\\.)*)")'
def lit(m, g):
    a, b, c = m.group(g), m.group(g+1), m.group(g+2)
    if a is not None: return a
    if b is not None: return b
    c = re.sub(r'\\\n\s*', '', c)
    c = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), c)
    return re.sub(r'\\(.)', lambda k: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(k.group(1), k.group(1)), c)
out = []
for f in sorted(glob.glob('/repo/tests/*.rs')):
    s = open(f).read()
    for blk in re.finditer(r'(assert_ok|assert_err|assert_matches)! \{(.*?)\n\}', s, re.S):
        for m in re.finditer(r'(\w+)\(\s*' + LIT + r',\s*(?:' + LIT + ')?', blk.group(2), re.S):
            a = lit(m, 2)
            if blk.group(1) == 'assert_matches':
                if m.group(5) is None and m.group(6) is None and m.group(7) is None: continue
                a = '@match %s { %s -> OK, $val -> {Failed: was $val} }' % (a, lit(m, 5))
            out.append(a)
out = list(dict.fromkeys(out))
json.dump(out, open('/verif/corpus/seeds.json', 'w'), indent=0)
print(len(out))
