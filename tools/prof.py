import sys; sys.path.insert(0,'/verif')
import importlib, time, traceback
from vc import driver, core
from vc.core import E
mod,name=sys.argv[1:3]
importlib.import_module('contracts.'+mod)
oc=E._check
def ck(fs,timeout,want_model=False):
    t=time.time(); r=oc(fs,timeout,want_model); d=time.time()-t
    if d>0.5:
        st=[f.name for f in traceback.extract_stack()[-7:-1]]
        print(f"{d:.1f}s",r[0],timeout,len(fs),"->".join(st),flush=True)
    return r
E._check=ck
i=[i for i,r in enumerate(driver.REG) if r[2]==name][0]
t=time.time()
r=driver._run_one((i,))
print(time.time()-t,[o for o in r['obls'] if o[1]!='proved'][:5], r['solver'],r['queries'])
