import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'/verif')
import importlib,time
m,f=sys.argv[1].split(':')
obs=getattr(importlib.import_module('rules.'+m),f)()
from rules.base import preload
mods=[]
for o in obs:
    for x in o.mods():
        if x not in mods: mods.append(x)
preload(mods)
sel=sys.argv[2] if len(sys.argv)>2 else ''
for o in obs:
    if sel and sel not in o.name: continue
    t=time.time()
    try:
        r=o.run(1,'quick')
    except Exception as e:
        import traceback
        if '-v' in sys.argv: traceback.print_exc()
        print('EXC',o.name,e); continue
    i=r.info
    print('%-9s %-40s %5.1fs gates %s/%s nodes %s kinds %s %s'%(r.status,o.name,time.time()-t,i.get('gates_both'),i.get('gates'),i.get('nodes'),i.get('kinds'),i.get('reason','')))
    for x in r.findings: print('    ',x.text[:400])
