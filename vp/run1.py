import sys, json, time, traceback
from config import BY_NAME
from sym import *
from unit import Unit
import isa
names = sys.argv[1].split(","); pat = sys.argv[2] if len(sys.argv) > 2 else ""
tot = {}
for n in names:
    d = json.load(open(f"/verif/build/x/{n}/client.json"))
    t0 = time.time(); stats = {}; no = 0; bad = 0; uns = 0
    for root in dict(d["roots"]):
        if "__acc__" in root or pat not in root: continue
        u = Unit(d, BY_NAME[n], root, None, stats, isa.executor(BY_NAME[n]))
        try:
            r = u.verify()
        except Unsupported as x:
            uns += 1; print(n, root, "UNSUPPORTED", x)
            if pat: traceback.print_exc()
            continue
        except Exception as x:
            traceback.print_exc(); print(n, root, "CRASH"); uns += 1; continue
        no += len(r)
        for o in r:
            if not o.ok: bad += 1; print(n, root, "FAIL", o.props, o.name, "|", o.where, o.case, o.model if pat else "")
    print(n, "obligations", no, "failed", bad, "unsupported", uns, "t=%.1f" % (time.time() - t0), stats)
