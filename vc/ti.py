import sys; sys.path.insert(0,'/verif/vc'); sys.path.insert(0,'/verif/vc/contracts')
import importlib, ssa, smt, driver
from driver import *
mod=importlib.import_module(sys.argv[1]); pat=sys.argv[2]; want=sys.argv[3] if len(sys.argv)>3 else None
p=ssa.load(path='/tmp/ssa.json')
if want:
    orig=smt.prove_many; n=[0]
    def pm(items,t,port):
        r=orig(items,t,port)
        for (h,g),x in zip(items,r):
            if not x.ok: n[0]+=1; print('    q%d'%n[0], str(g)[:150]); open('/tmp/q%d.smt2'%n[0],'w').write(x.text)
        return r
    o2=driver.Ob if hasattr(driver,'Ob') else None
    smt.prove_many=pm
for s in mod.specs():
    if s.label==pat:
        r=verify(p,s,verbose=2)
        print('\n'.join(r.inv))
        for i,(o,x) in enumerate(r.failed): open('/tmp/f%d.smt2'%i,'w').write(x.text)
