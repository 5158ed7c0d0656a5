"""histogram of (op, outcome) of a generator: tools/hist.py gen_module [n] [fn] [field]"""
import sys,collections; sys.path[:0]=['/verif/lib','/verif/checks']
import vp,importlib,random
g=importlib.import_module(sys.argv[1]); n=int(sys.argv[2]) if len(sys.argv)>2 else 500; fn=sys.argv[3] if len(sys.argv)>3 else 'script'; fld=sys.argv[4] if len(sys.argv)>4 else 'rc'
r=random.Random(1); sc=[getattr(g,fn)(r) for _ in range(n)]
c=vp.Check('PXX','quick') if hasattr(vp,'Check') else None
res=c.drive(sc,'asan',60)
H=collections.Counter()
for x in res:
    for e in x['ev']: H[(e.get('o'),str(e.get(fld,'gone' if e.get('gone') else '-')))]+=1
for k in sorted(H,key=str): print(k,H[k])
print('crash',sum(1 for x in res if x.get('crash')))
