import json,glob,os,sys
fs=sorted(glob.glob('/verif/replays/%s-*.json'%sys.argv[1]),key=os.path.getmtime)[-int(sys.argv[2] if len(sys.argv)>2 else 8):]
for f in fs:
    d=json.load(open(f)); print(f,d['step'],d['reason'])
    ev=(d.get('result') or {}).get('ev',[])
    if d['step']>0: print('   ',json.dumps(ev[d['step']-1])[:700])
    else: print('   ',json.dumps(d.get('result'))[:1500])
