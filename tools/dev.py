import os, sys; sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo')); sys.path.append('/opt/venv/lib/python3.12/site-packages'); sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode=True
import importlib, time
m = importlib.import_module("contracts."+sys.argv[1])
from pyvc.goals import *
sel = sys.argv[2:]
for g in m.M.goals:
    if sel and g.name not in sel: continue
    t=time.time()
    nat = sample_native(g, 1, g.samples, 20)
    print("==", g.name, "native", nat[0], nat[1], nat[3] or "", "%.1fs"%(time.time()-t), flush=True)
    if g.bounded: continue
    r = run_symbolic(m.M, g, time.time()+300)
    from collections import Counter
    print("   ", r["paths"], "paths", "%.1f"%r["secs"], dict(Counter(o["status"] for o in r["obligations"])), r["backends"])
    bad=[o for o in r["obligations"] if o["status"]!="discharged"]
    for o in bad[:6]: print("   !!", o["name"], o["status"], o["backend"], o["detail"][:600], o["model"])
    for p in r["problems"][:5]: print("   P", p)
