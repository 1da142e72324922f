import sys; sys.path.insert(0,'/verif')
import importlib
from vc import driver, core
from vc.core import E
import z3
mod,name=sys.argv[1:3]; k=int(sys.argv[3]) if len(sys.argv)>3 else 0
importlib.import_module('contracts.'+mod)
E.__class__.timeout=3000
orig=E._prove
cnt=[0]
oo=E.oblige
def ob(n,g,timeout=None):
    import time
    t=time.time()
    hyps=E.hyps(); r=oo(n,g,timeout)
    if not r:
        cnt[0]+=1
        if cnt[0]-1==k or k<0:
            print("=====",n,E.obls[-1].status,E.obls[-1].detail[:800]); print("GOAL",core.simp(core.lift(g)))
            for h in hyps: print("HYP",h)
    return r
E.oblige=ob
i=[i for i,r in enumerate(driver.REG) if r[2]==name][0]
r=driver._run_one((i,))
print([o for o in r['obls'] if o[1]!='proved'][:5])
