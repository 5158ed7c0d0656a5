import json,sys
d=json.load(open(sys.argv[1])); st=d['step']; e=d['result']['ev'][st-1]
print({k:v for k,v in e.items() if k not in('px','px0')})
n={0:1,1:1,2:1,3:3,4:3,9:4}[e['ipt']]; w=e['iw']
for i,(a,b) in enumerate(zip(e['px'],e['px0'])):
    if a!=b: print('x',i//n%w,'y',i//n//w,'k',i%n,a,b)
for t in d['script']['tiles']:
    print(t)
print(d['script']['calls'])
