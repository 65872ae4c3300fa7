#!/usr/bin/env python3
"""plant.py ID PROP FILE 'needs' 'breaks' <<< python: defines edit(src)->src and DEMO (C text)
Creates seeded/ID from an edit, verifying it on a scratch copy; prints whether the check catches it."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def main():
    ns = {}
    exec(sys.stdin.read(), ns)
    for s in ns["SEEDS"]:
        d = "%s/seeded/%s" % (V, s["id"]); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="plant", dir="/tmp"); r = t + "/repo"
        sh("cp -a /repo %s && git -C %s checkout -q -- ." % (r, r))
        for f, anchor, old, new in s["edits"]:   # first occurrence of old after the anchor
            x = open(r + "/" + f, errors="surrogateescape").read()
            p = x.find(anchor)
            p = x.find(old, p) if p >= 0 else p
            if p < 0: print(s["id"], "NO MATCH", f, anchor[:40], old[:50]); break
            x = x[:p] + new + x[p + len(old):]
            open(r + "/" + f, "w", errors="surrogateescape").write(x)
        else:
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % r).stdout)
            open(d + "/demo.c", "w").write(s["demo"])
            shutil.copy(V + "/tools/seedlib/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
            for h in s.get("files", ["vmdemo.h"]): shutil.copy(V + "/tools/seedlib/" + h, d)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            a = sh("%s/demo.sh" % d, cwd="/repo"); b = sh("%s/demo.sh" % d, cwd=r)
            ok = a.returncode == 0 and b.returncode not in (0, 8, 9)
            print(s["id"], "demo clean", a.returncode, "patched", b.returncode, "OK" if ok else "BAD\n" + a.stdout[-1500:] + b.stdout[-1500:])
            if ok and "NOTEST" not in os.environ:
                sh("git -C /repo apply %s/patch.diff" % d)
                print("   stable tests:", sh("bash /tmp/t.sh").stdout.strip()[-300:])
                sh("git -C /repo checkout -- .")
            if ok and "NOCHECK" not in os.environ:
                c = sh("VERIF_REPO=%s python3 %s/check.py %s quick" % (r, V, s["property"]))
                print("   check rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "UNDECIDED" in l][:4] or c.stdout[-400:])
        shutil.rmtree(t)
    sh("bash /opt/vp/build.sh")
main()
