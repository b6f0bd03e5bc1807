import sys; sys.path.insert(0,'/verif/vc'); sys.path.insert(0,'/verif/vc/contracts')
import importlib, smt
from driver import *
mod=importlib.import_module(sys.argv[1]); pat=sys.argv[2] if len(sys.argv)>2 else ''
for l in mod.lemmas():
    if pat in l.label:
        r=smt.prove([],l.goal,5,PORT_FULL); print('OK ' if r.ok else 'FAIL', l.label, r.note)
        if not r.ok: open('/tmp/q.smt2','w').write(r.text)
