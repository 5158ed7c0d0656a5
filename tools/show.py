import json,sys
d=json.load(open(sys.argv[1])); st=d['step']; ev=d['result']['ev']
print(d['reason'],st)
if st>0:
    e=ev[st-1]; print({k:v for k,v in e.items() if k not in('px','px0')})
    n={0:1,1:1,2:1,3:3,4:3,9:4}.get(e.get('ipt'),1)
    if e.get('px'):
        w=e['iw']
        for y in range(e['ih']): print([tuple(e['px'][(y*w+x)*n:(y*w+x)*n+n]) if n>1 else e['px'][y*w+x] for x in range(w)])
for t in d['script']['tiles']: print(t)
