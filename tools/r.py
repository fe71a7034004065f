import sys, importlib, os
sys.path.insert(0,os.environ.get('VERIF','/verif'))
from pyvc.unit import *
from pyvc.engine import SOLVER_STATS
import time
root=os.environ.get('ROOT','/repo')
w=make_world(root)
for p in sys.argv[1].split(','):
    importlib.import_module('specs.'+p.lower())
    for u in UNITS.get(p.upper(), []):
        if len(sys.argv)>2 and sys.argv[2] not in u.name: continue
        r=run_unit(w,u)
        n=[sum(o.status==s for o in r.obligations) for s in ('proved','refuted','unknown')]
        print('%-10s %-50s paths=%d obl=%s %.2fs %s'%(r.status,u.name,r.paths,n,r.seconds,(r.error or '')[:500]))
        if hasattr(r,"trace") and os.environ.get("V"): print(r.trace[-1200:])
        if os.environ.get('V'):
            for o in r.obligations:
                if o.status!='proved': print('   ',o.label,o.status,o.detail[:3000])
print(SOLVER_STATS)
