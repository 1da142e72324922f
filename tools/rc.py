import sys,time; sys.path.insert(0,'/verif')
import importlib
from vc import driver
for p in sys.argv[1].split(','): importlib.import_module('contracts.'+p)
only=sys.argv[2] if len(sys.argv)>2 else None
pr=[x.upper() for x in sys.argv[1].split(",")]
idx=[i for i,r in enumerate(driver.REG) if r[0] in pr and (not only or only in r[2])]
t=time.time()
if only and len(idx)==1 and '-d' in sys.argv: res=[driver._run_one((idx[0],))]
else: res=driver.run_all(idx)
bad=0;n=0
for r in res:
    b=[o for o in r['obls'] if o[1]!='proved']; n+=len(r['obls']); bad+=len(b)
    print(f"{r['name']:35s} {len(r['obls'])-len(b)}/{len(r['obls'])} {r['secs']:.1f}s")
    for o in b: print("   FAIL",o[0],o[1],o[2][:1200])
print(n,bad,time.time()-t)
