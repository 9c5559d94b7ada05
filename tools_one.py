"""run one harness symbolically in this process: tools_one.py R17 name [seconds]"""
import sys, faulthandler, importlib, glob, time
sys.path[:0] = ["/verif", "/verif/contracts"]
from pyvc import loader, engine, sym, runner
pid, hn = sys.argv[1:3]
if len(sys.argv) > 3:
    faulthandler.dump_traceback_later(float(sys.argv[3]), exit=True)
f = glob.glob("/verif/contracts/%s_*.py" % pid.lower())[0]
from pyvc import shims
runner._quiet() if False else None
loader.install_symbolic()
import os
m = importlib.import_module(os.path.basename(f)[:-3])
h = [x for x in m.REG.items if x.name == hn][0]
from pyvc import loops
loops.install(h.opts.get("loops"))
c = engine.SymCtx(dict(h.opts, budget_s=300))
t = time.time()
try:
    c.explore(h.fn, h.name)
finally:
    print("paths", c.paths, "obl", len(c.obligations), "queries", c.queries, "solver", c.solver_s, time.time() - t, "unknown", c.unknown_branches)
    for o in c.obligations:
        if o.status != "proved":
            print(o.name, o.status, o.backend, o.detail, o.model)
