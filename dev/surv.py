import json,sys
for f in sys.argv[2:]:
    for i,l in enumerate(open(f)):
        m=json.loads(l)
        if m['st']=='survived' and (sys.argv[1]=='all' or m.get('tests')) : print('%s:%d%s\n   - %s\n   + %s'%(m['f'],m['l'],'' if m.get('tests') else '  [tests fail]',m['old'].strip(),m['new'].strip()))
