import sys; sys.path.insert(0,'/verif/vc'); sys.path.insert(0,'/verif/vc/contracts')
import importlib, ssa, smt
from driver import *
mod=importlib.import_module(sys.argv[1]); pat=sys.argv[2]
p=ssa.load(path='/tmp/ssa.json')
for s in mod.specs():
    if pat in s.label:
        r=verify(p,s,verbose=1)
        for i,(o,x) in enumerate(r.failed[:3]):
            print('----',o.desc); open('/tmp/q%d.smt2'%i,'w').write(x.text)
            t=x.text.split('\n')
            for l in t:
                if '(declare' in l: continue
                if l.startswith('(assert (forall') and ':pattern' in l and 'SeqI)' in l[:60] : continue
                print(l[:600])
