#!/usr/bin/env python3
"""Development aid: run the native random search of every harness on the current tree (must find nothing)."""
import os, sys, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("VERIF_BUDGET", "7200")
import check, props
pid, secs = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "3"
only = sys.argv[3:]
work = tempfile.mkdtemp(prefix="dlv-n-")

def one(a):
    u, h = a
    exe, err = u.native(h)
    if not exe: return h, "BUILD " + err[-400:]
    inp = work + "/" + u.u["name"] + h + ".in"
    rc, out = check.run([exe, "search", secs, "7", inp], 100)
    if rc == 1: return h, out[-600:] + check.replay(exe, inp)[1][:1500] + "\n" + open(inp).read()[:1500].replace("\n", "; ")
    return h, None if rc == 0 else "rc %s %s" % (rc, out[-300:])
jobs = []
for u in props.PROPS[pid]["units"]:
    un = check.Unit(work, u)
    if u.get("no_native"): continue
    jobs += [(un, h) for h in u["harnesses"] if not only or h in only]
with cf.ThreadPoolExecutor(8) as ex:
    for h, r in ex.map(one, jobs):
        if r: print("==", h, r)
print("done", len(jobs))
shutil.rmtree(work)
