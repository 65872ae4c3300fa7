#!/usr/bin/env python3
"""Contract checker: python3 check.py ID [quick|thorough]

Compiles the real sources of /repo together with the contracts in specs/, discharges every
obligation with CBMC, replays counterexamples on the natively compiled code, writes
evidence/ID.json.  Exit 0: every obligation discharged.  Exit 1: VIOLATION line printed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import props

T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "780"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
BASE = ["-DUSE_STDLIB", "-DEXPORTING_DUCKLIB", "-I" + REPO, "-I" + REPO + "/DuckLib", "-I" + HERE + "/specs"]
CHECKS = ["--drop-unused-functions", "--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--unwinding-assertions"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1")


def left():
    return BUDGET - (time.time() - T0)


def run(cmd, timeout, **kw):
    """-> (rc, output); rc None on timeout"""
    t = max(1, min(timeout, left()))
    rss = kw.pop("rss", None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, env=ENV, **kw)
    try:
        stop = threading.Event()
        if rss is not None:
            def watch():
                while not stop.wait(0.5):
                    try:
                        m = re.search(r"VmHWM:\s+(\d+)", open("/proc/%d/status" % p.pid).read())
                        rss[0] = max(rss[0], int(m.group(1)) >> 10) if m else rss[0]
                    except OSError:
                        return
            threading.Thread(target=watch, daemon=True).start()
        out, _ = p.communicate(timeout=t)
        stop.set()
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timeout after %.0f s" % t


def reorder_header(dst, first=None):
    """duckVM.h with the object union's members reordered: members that start with a pointer to something else than
    an object go last.  All union members start at offset 0, so the meaning is unchanged."""
    s = open(REPO + "/duckVM.h", errors="replace").read()
    m = re.search(r"(typedef\s+struct\s+duckVM_object_s\s*\{\s*union\s*\{)(.*?)(\}\s*value\s*;)", s, re.S)
    if m:
        mem = [x for x in m.group(2).split(";") if x.strip()]
        late = [x for x in mem if re.search(r"\b(internalString|upvalue_array|internal_vector|bytecode|function|user)\s*$", x)
                and "duckVM_" in x]
        mem = [x for x in mem if x not in late] + late
        mem.sort(key=lambda x: x.split()[-1] != first)
        s = s[:m.start(2)] + "".join(x + ";" for x in mem) + "\n" + s[m.end(2):]
    with open(dst, "w") as f:
        f.write(s)


class Budget:
    """Gigabytes: harnesses known to need much memory do not run beside each other."""

    def __init__(self, total):
        self.total, self.free, self.c = total, total, threading.Condition()

    def take(self, n):
        with self.c:
            self.c.wait_for(lambda: self.free >= n)
            self.free -= n

    def give(self, n):
        with self.c:
            self.free += n
            self.c.notify_all()


MEMORY = Budget(26)


class Unit:
    """One compiled goto binary: (spec source, defines)."""

    def __init__(self, work, u):
        self.work, self.u = work, u
        self.lock = threading.Lock()
        self.built = {}
        self.natives = {}

    def goto(self, small=False):
        with self.lock:
            if small not in self.built:
                self.built[small] = self._build(small)
            return self.built[small]

    def _build(self, small):
        u = self.u
        d = os.path.join(self.work, u["name"] + (".small" if small else ""))
        os.makedirs(d, exist_ok=True)
        reorder_header(d + "/duckVM_reordered.h", u.get("first"))
        defs = BASE + ["-D__CPROVER__", "-I" + d] + ["-D" + x for x in u.get("defs", [])] + (["-DSMALL"] if small else [])
        objs = []
        srcs = [(HERE + "/specs/" + u["src"], [])]
        for s in u.get("link", []):
            if isinstance(s, tuple):  # (real file, [functions to rename to real_*])
                srcs.append((REPO + "/" + s[0], ["-D%s=real_%s" % (f, f) for f in s[1]]))
            else:
                srcs.append((REPO + "/" + s, []))
        for i, (s, extra) in enumerate(srcs):
            o = "%s/%d.gb" % (d, i)
            rc, out = run(["goto-cc"] + defs + extra + ["-c", s, "-o", o], 120)
            if rc != 0:
                return None, "goto-cc failed on %s:\n%s" % (s, out[-3000:])
            objs.append(o)
        lk = d + "/l.gb"
        rc, out = run(["goto-cc"] + objs + ["-o", lk], 120)
        if rc != 0:
            return None, "goto-cc link failed:\n" + out[-3000:]
        for a, b in u.get("replace", []):
            n = d + "/r.gb"
            rc, out = run(["goto-instrument", "--replace-calls", a + ":" + b, lk, n], 120)
            if rc == 0:
                os.replace(n, lk)
            elif u.get("replace_required"):
                return None, "replacing %s by its contract failed: %s" % (a, out[-2000:])
        if u.get("dfcc"):
            # filled per harness (see prove)
            pass
        return lk, ""

    def unwindset(self, gb):
        """loops of the code under test get their own (smaller) unwinding limit; unwinding assertions stay on"""
        n = self.u.get("unwind_code")
        if not n:
            return []
        with self.lock:
            if not hasattr(self, "loops"):
                rc, out = run(["goto-instrument", "--show-loops", gb], 60)
                self.loops = [m.group(1) for m in re.finditer(r"^Loop (\S+):\n  file (\S+)", out, re.M) if m.group(2).startswith(REPO)]
        return ["--unwindset", ",".join("%s:%d" % (l, n) for l in self.loops)] if self.loops else []

    def native(self, harness):
        with self.lock:
            if harness not in self.natives:
                d = os.path.join(self.work, self.u["name"] + ".native")
                os.makedirs(d, exist_ok=True)
                exe = d + "/" + harness
                srcs = [HERE + "/specs/" + self.u["src"], HERE + "/specs/native_main.c"]
                srcs += [REPO + "/" + s for s in self.u.get("native_link", props.DUCKLIB)]
                cmd = ["gcc", "-g", "-O1", "-w", "-fsanitize=address", "-fno-sanitize-recover=all"] + \
                    ["-fsanitize=" + x for x in ("bounds", "null", "integer-divide-by-zero", "bool", "enum")] * 0 + \
                    BASE + ["-D" + x for x in self.u.get("defs", [])] + self.u.get("native_flags", []) + \
                    ["-DH=" + harness] + srcs + ["-lm", "-o", exe]
                rc, out = run(cmd, 120)
                self.natives[harness] = (exe, "") if rc == 0 else (None, out[-3000:])
            return self.natives[harness]


def parse(out):
    res = []
    for m in re.finditer(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M):
        res.append((m.group(1), m.group(3), m.group(4), m.group(2)))
    return res


def cbmc_cmd(u, gb, h):
    flags = list(u.get("checks", CHECKS)) + ([] if "--malloc-may-fail" in u.get("flags", []) else ["--no-malloc-may-fail"]) + ["--slice-formula", "--unwind", str(u.get("unwind", 10))]
    flags += ["--" + u["smt"]] if u.get("smt") else ["--sat-solver", u.get("sat", "cadical")]
    flags += u.get("flags", [])
    return ["cbmc", gb, "--function", h] + flags


def prove(unit, h):
    u = unit.u
    t = time.time()
    r = dict(unit=u["name"], harness=h, status="undecided", detail="", obligations=0, discharged=0, failed=[], reach=0)
    gb, err = unit.goto()
    if not gb:
        r["detail"] = err
        return r
    if u.get("dfcc"):
        n = os.path.join(os.path.dirname(gb), h + ".dfcc.gb")
        rc, out = run(["goto-instrument", "--dfcc", h] + u["dfcc"](h) + [gb, n], 300)
        if rc != 0:
            r["detail"] = "goto-instrument --dfcc failed:\n" + out[-3000:]
            return r
        gb = n
    rss = [0]
    mem = min(u.get("mem", 2), MEMORY.total)
    MEMORY.take(mem)
    try:
        rc, out = run(cbmc_cmd(u, gb, h) + unit.unwindset(gb) + ["--verbosity", "8"], u.get("timeout", 600), rss=rss)
    finally:
        MEMORY.give(mem)
    r["peak_mb"] = rss[0]
    r["killed"] = rc is not None and rc < 0
    r["secs"] = round(time.time() - t, 1)
    m = re.findall(r"Runtime (?:Solver|decision procedure): ([\d.]+)s", out)
    r["solver_s"] = round(sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.]+)s", out)), 2)
    if rc is None:
        r["detail"] = out
        return r
    res = parse(out)
    if not res or rc not in (0, 10):
        r["detail"] = "no result (rc %s):\n%s" % (rc, out[-3000:])
        return r
    reach = [x for x in res if x[1].startswith("REACH:")]
    ob = [x for x in res if not x[1].startswith("REACH:")]
    r["obligations"] = len(ob)
    r["discharged"] = sum(1 for x in ob if x[2] == "SUCCESS")
    r["reach"] = len(reach)
    r["labels"] = sorted(set(x[1][6:] for x in ob if x[1].startswith("CHECK:")))
    bad = [x for x in ob if x[2] == "FAILURE"]
    unk = [x for x in ob if x[2] not in ("SUCCESS", "FAILURE")]
    hit = set(x[1] for x in reach if x[2] == "FAILURE")
    vac = [x for x in reach if x[1] not in hit and x[1][6:] not in u.get("reach_optional", {}).get(h, [])]
    if u.get("any_reach") and hit:
        vac = []
    if bad:
        r["status"] = "failed"
        r["failed"] = bad
        r["detail"] = "\n".join("[%s] line %s %s: FAILURE" % (x[0], x[3], x[1]) for x in bad)
    elif unk:
        r["detail"] = "solver left obligations undecided:\n" + "\n".join("[%s] %s" % (x[0], x[1]) for x in unk)
    elif vac and not u.get("allow_unreached"):
        r["detail"] = "vacuous: the harness never reaches " + ", ".join(x[1] for x in vac)
    elif not any(x[1].startswith("CHECK:") for x in ob) or not reach:
        r["detail"] = "no contract obligation was generated"
    else:
        r["status"] = "proved"
    return r


def counterexample(unit, h, failed):
    """inputs of a counterexample as [(id, value)], or None"""
    for small in (True, False):
        gb, _ = unit.goto(small)
        if not gb:
            continue
        if unit.u.get("dfcc"):
            return None
        names = [x[0] for x in sorted(failed, key=lambda x: "CHECK:" not in x[1])][:2]
        for n in names:
            rc, out = run(cbmc_cmd(unit.u, gb, h) + unit.unwindset(gb) + ["--property", n, "--trace", "--json-ui", "--verbosity", "4"], 150)
            if rc != 10:
                continue
            try:
                doc = json.loads(out)
            except ValueError:
                continue
            for item in doc:
                for rr in item.get("result", []) if isinstance(item, dict) else []:
                    if rr.get("status") == "FAILURE" and "trace" in rr:
                        ins = []
                        for s in rr["trace"]:
                            if s.get("stepType") == "input" and s.get("values"):
                                v = s["values"][0]
                                if "binary" in v:
                                    ins.append((s["inputID"], int(v["binary"], 2)))
                        return ins
    return None


def replay(exe, path):
    rc, out = run([exe, "replay", path], 40)
    failed = rc is None or rc not in (0, 3)
    return failed, "exit %s\n%s" % (rc, out[-6000:])


def confirm(unit, r, pid, seed):
    """Try to turn a failed/undecided obligation into a failing run of the compiled code."""
    h = r["harness"]
    os.makedirs(HERE + "/replays", exist_ok=True)
    path = "%s/replays/%s-%s-%s.txt" % (HERE, pid, r["unit"], h)
    inp = os.path.join(unit.work, "%s-%s.in" % (r["unit"], h))
    text = ["property %s, unit %s, harness %s (specs/%s)" % (pid, r["unit"], h, unit.u["src"]),
            "status: " + r["status"], "", r["detail"], ""]
    ok = False
    exe, err = unit.native(h) if not unit.u.get("no_native") else (None, "no native replay for this unit")
    if not exe:
        text += ["native build unavailable:", err]
    ins = counterexample(unit, h, r["failed"]) if r["failed"] else None
    if ins:
        text += ["verifier counterexample inputs:"] + ["%s %d" % x for x in ins] + [""]
        if exe:
            with open(inp, "w") as f:
                f.writelines("%s %d\n" % x for x in ins)
            ok, out = replay(exe, inp)
            text += ["replay on the compiled code: " + ("VIOLATED" if ok else "not reproduced"), out]
    if not ok and exe:
        rc, out = run([exe, "search", str(unit.u.get("search_s", 25)), str(seed), inp], unit.u.get("search_s", 25) + 40)
        text += ["random search on the compiled code (seed %d): %s" % (seed, out[-4000:])]
        if rc == 1:
            ok, out = replay(exe, inp)
            text += ["inputs:", open(inp).read(), "replay on the compiled code: " + ("VIOLATED" if ok else "not reproduced"), out]
    with open(path, "w") as f:
        f.write("\n".join(text) + "\n")
    return ok, path


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = sys.argv[3:] or None
    p = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix="dlv-%s-" % pid)
    global BUDGET
    if tier == "thorough":
        BUDGET = max(BUDGET, 6 * 3600.0)
    try:
        units, jobs = [], []
        for u in p["units"]:
            if u.get("tier") == "thorough" and tier != "thorough":
                continue
            un = Unit(work, u)
            hs = list(u["harnesses"]) + (list(u.get("thorough_harnesses", [])) if tier == "thorough" else [])
            for h in hs:
                if only and h not in only:
                    continue
                jobs.append((un, h))
        jobs.sort(key=lambda j: -j[0].u.get("weight", 1))
        results = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(prove, un, h): un for un, h in jobs}
            for f in cf.as_completed(futs):
                r = f.result()
                r["_unit"] = futs[f]
                results.append(r)
                if os.environ.get("VERBOSE") or r["status"] != "proved":
                    print("%-9s %s/%s %ss (solver %ss, %d MB) %d/%d %s" % (r["status"], r["unit"], r["harness"], r.get("secs", "?"), r.get("solver_s", "?"), r.get("peak_mb", 0), r["discharged"], r["obligations"], "" if r["status"] == "proved" else r["detail"][-700:]), flush=True)
        # a solver ended for lack of memory has decided nothing: once more, on its own
        for i, r in enumerate(results):
            if r.get("killed") and left() > 60:
                un = r["_unit"]
                results[i] = prove(un, r["harness"])
                results[i]["_unit"] = un
        viol = 0
        bad = [r for r in results if r["status"] != "proved"]
        # failed obligations first; stop after a confirmed one per unit
        bad.sort(key=lambda r: (r["status"] != "failed", r["unit"], r["harness"]))
        confirmed, unconfirmed = None, None
        if os.environ.get("NOCONFIRM"):
            bad_ = []
            viol = len(bad)
        else:
            bad_ = bad
        for r in bad_:
            if confirmed or (unconfirmed and left() < 120) or (unconfirmed and len(bad_) > 6 and r is not bad_[-1] and bad_.index(r) > 6):
                break
            ok, path = confirm(r["_unit"], r, pid, seed)
            if ok:
                confirmed = (r, path)
            elif not unconfirmed:
                unconfirmed = (r, path)
        for k in p.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if confirmed:
            viol = 1
            print("VIOLATION property=%s replay=%s" % (pid, confirmed[1]))
        elif unconfirmed:
            viol = 1
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, unconfirmed[1]))
        obl = sum(r["obligations"] for r in results)
        dis = sum(r["discharged"] for r in results)
        bounded = [r for r in results if r["_unit"].u.get("bounded")]
        proof = [r for r in results if not r["_unit"].u.get("bounded")]
        cov = {
            "obligations": sum(r["obligations"] for r in proof),
            "discharged": sum(r["discharged"] for r in proof),
            "checker_cmd": "python3 check.py %s %s (cbmc 6.11.0, SAT back end cadical)" % (pid, tier),
            "trusted_base": props.TRUSTED + p.get("trusted", []),
            "functions_under_contract": p.get("functions", []),
            "harnesses": {"%s/%s" % (r["unit"], r["harness"]): {"status": r["status"], "obligations": r["obligations"], "discharged": r["discharged"],
                          "vacuity_guards": r["reach"], "seconds": r.get("secs"), "solver_seconds": r.get("solver_s"),
                          "bounded": r["_unit"].u.get("bounded", False)} for r in sorted(results, key=lambda r: (r["unit"], r["harness"]))},
            "contract_clauses": sorted(set(l for r in results for l in r.get("labels", []))),
            "solver_seconds": round(sum(r.get("solver_s") or 0 for r in results), 1),
        }
        if bounded:
            cov["bounded_obligations_not_counted_as_proved"] = sum(r["obligations"] for r in bounded)
            cov["bounded_discharged"] = sum(r["discharged"] for r in bounded)
        if p.get("level", "proof") != "proof":
            cov["explanation"] = p["level_note"]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "proof"), "coverage": cov,
              "assumptions": p.get("assumptions", []) + props.ASSUMPTIONS, "wall_s": round(time.time() - T0, 1), "violations": viol}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(HERE + "/evidence/%s.json" % pid, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d harnesses, %d/%d obligations discharged, %.0f s" % (pid, tier, len(results), dis, obl, time.time() - T0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
