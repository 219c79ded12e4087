import json,sys
J=json.load(open('/tmp/ex/out.json'))
F=J['fns']
q=sys.argv[1]
for ex in (lambda f: f['name']==q or f['def']==q, lambda f: q in f['name'] or q in f['def']):
  hit=[f for f in F.values() if ex(f)]
  if hit: break
f=hit[0]
for k,v in f.items():
    if k!='blocks': print(k,v)
for i,l in enumerate(f['locals']): print('_%d'%i, J['types'][l]['name'])
for i,b in enumerate(f['blocks'] or []):
    print('bb%d'%i)
    for s in b['s']: print('   ',json.dumps(s))
    print('   T',json.dumps(b['t']))
