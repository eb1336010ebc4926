import json,sys
x=json.load(open(sys.argv[1]))
print(x['runs'],x['digest'],round(x['wall_ns']/1e9,2),len(x['viol'] or []),x['other'],x['steps'],x['replayed'],len(x['diverged'] or []),(x['diverged'] or [])[:10])
v={}
for f in x['viol'] or []: v.setdefault(f['v']['class'],[]).append((f['index'],f['v']['detail'][:300]))
for k,y in v.items(): print(k,len(y)); [print('   ',q) for q in y[:int(sys.argv[2]) if len(sys.argv)>2 else 2]]
