#!/usr/bin/env python3
"""Writes spec/chars.json: the facts about characters that the specification
uses (class, UTF-8 length, Unicode case mappings, Unicode white space)."""
import glob, json, os, re, unicodedata
from pv import STAND, BACK, stood
P = set('()[]{}<>.,-=:*!?/|#@$&\\`\'"')
def cl(c):
    if c == '\n': return 'nl'
    if c in ' \t\r\x0c': return 'sp'
    if c == '_' or (c.isascii() and c.isalpha()): return 'id'
    if c.isascii() and c.isdigit(): return 'dg'
    if c in P: return 'pu'
    return 'rw'
WHITE = set(map(chr, [9,10,11,12,13,32,0x85,0xa0,0x1680,0x2028,0x2029,0x202f,0x205f,0x3000] + list(range(0x2000,0x200b))))
codes = list(range(1,0x180)) + list(range(0x370,0x3d0)) + [0x2003,0x2010,0x2013,0x2014,0x2018,0x2019,0x201c,0x201d,0x2015,0x2026,0x2028,0x2029,0x2060,0x2190,0x2192,0x2194,0x2212,0x2260,0x2264,0x2265,0x3000,0xfffd,0x8001,0x864e,0x20ac,0x200b,0x1e9e,0xfb01,0x2bc,0x2019,0x3a3,0xfb00,0xfb03] + list(range(0x300,0x30d)) + [0x345,0x342]
codes = [c for c in sorted(set(codes)) if chr(c).isprintable() or chr(c) in WHITE or c < 0x20 or c in (0x7f,0x80,0x85,0xad,0x200b,0x2060)]
def up(c): return c.upper()
def lo(c): return c.lower()
REG = glob.glob('/root/.cargo/registry/src/*/')[0]
PTR = open(REG + 'deunicode-1.3.2/src/pointers.bin', 'rb').read()
MAP = open(REG + 'deunicode-1.3.2/src/mapping.txt', newline='').read()
def de(k):
    if 3*k+3 > len(PTR): return '[?]'
    a, b, n = PTR[3*k:3*k+3]
    if n <= 2: return bytes((a, b)[:n]).decode()
    x = MAP[a | b << 8:(a | b << 8) + n]
    return x if len(x) == n else '[?]'
# for the lower case of a capital sigma, which depends on what is around it
def cased(c): return c.isupper() or c.islower() or c.istitle()
def ignorable(c): return unicodedata.category(c) in ('Mn', 'Me', 'Cf', 'Lm', 'Sk') or c in "'.:\u00b7\u0387\u2018\u2019\u2024\u2027"
d = {}
for k in codes:
    c = chr(k)
    d[c] = {'nd': unicodedata.category(c) == 'Nd', 'wc': c == '_' or unicodedata.category(c)[0] in 'LM' or unicodedata.category(c) in ('Nd', 'Nl', 'Pc'), 'cl': cl(c), 'b': len(c.encode()), 'up': up(c), 'lo': lo(c), 'w': c in WHITE, 'code': k, 'de': c if k < 0x7f else de(k), 'cased': cased(c), 'ci': ignorable(c)}
for k, c in STAND.items():
    d[chr(k)] = {'nd': unicodedata.category(c) == 'Nd', 'wc': unicodedata.category(c)[0] in 'LM' or unicodedata.category(c) in ('Nd', 'Nl', 'Pc'), 'cl': 'rw', 'b': 4, 'up': stood(up(c)), 'lo': stood(lo(c)), 'w': False, 'code': ord(c), 'de': de(ord(c)), 'cased': cased(c), 'ci': ignorable(c)}
# closed under case mapping
while True:
    bad = [c for c in d if any(x not in d for x in d[c]['up'] + d[c]['lo'])]
    if not bad: break
    for c in bad: del d[c]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'chars.json')
json.dump(d, open(out, 'w'), ensure_ascii=True, sort_keys=False)
json.dump([c for c in d], open(os.path.join(os.path.dirname(out), 'alphabet.json'), 'w'), ensure_ascii=True)
ent = {}
for n, x in re.findall(r'\("(\w+)", (0x[0-9a-f]+)\)', open(REG + 'htmlentity-1.2.0/src/data.rs').read()):
    if stood(chr(int(x, 16))) in d: ent[n] = stood(chr(int(x, 16)))
json.dump(ent, open(os.path.join(os.path.dirname(out), 'entities.json'), 'w'), ensure_ascii=True)
json.dump({str(d[c]['code']): c for c in d}, open(os.path.join(os.path.dirname(out), 'codes.json'), 'w'), ensure_ascii=True)
print(len(d), len(ent))
