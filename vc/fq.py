"""python3 fq.py FILE: ground part of a query; -q QUANT too"""
import sys
for l in open(sys.argv[1]):
    if l.startswith("(declare") or l.startswith("(assert (forall") and ":pattern" in l and "?" not in l: continue
    print(l.rstrip()[:700])
