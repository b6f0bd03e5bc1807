import sys; sys.path.insert(0,'/verif/vc'); sys.path.insert(0,'/verif/vc/contracts')
import importlib, ssa, smt
from driver import *
mod=importlib.import_module(sys.argv[1]); pat=sys.argv[2] if len(sys.argv)>2 else ''
p=ssa.load(path='/tmp/ssa.json')
for s in mod.specs():
    if pat in s.label: verify(p,s,verbose=int(sys.argv[3]) if len(sys.argv)>3 else 2 if pat else 1)
if hasattr(mod,'lemmas'):
  for l in mod.lemmas():
    if pat in l.label: print(l.label, [ (smt.prove([],l.goal,5,PORT_FULL).note)])
