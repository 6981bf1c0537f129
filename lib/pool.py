"""The thread pool: programs computed by TLC, executed by the recorder under
controlled schedules, recorded events checked by TLC against TaskPool."""
import json, os, re
from vf import *
from session import generate, validate, SAN_ENV, parallel
from concurrent.futures import ThreadPoolExecutor


class Rec:
    def __init__(self, ctx, name, source, std, flags=(), macros=(), mode="sched", opt="-O1"):
        """mode: sched (controlled schedules), free (free running), tsan, asan"""
        self.ctx, self.name, self.mode, self.std = ctx, name, mode, std
        self.dir = ctx.fresh("rec")
        os.makedirs(self.dir)
        base = ["g++", "-std=" + std, "-w", opt, "-g1"] + list(flags) + ["-D" + m for m in macros] + ["-I" + HARNESS, "-I" + INC]
        o, so, self.bin = [os.path.join(self.dir, x) for x in ("a.o", "sched.o", "rec")]
        src = source if isinstance(source, list) else [os.path.join(HARNESS, source)]
        self.objs = [os.path.join(self.dir, "a%d.o" % k) for k in range(len(src))]
        inst = {"sched": ["-fsanitize=thread"], "free": ["-DFREE_RUNNING"], "tsan": ["-DFREE_RUNNING", "-fsanitize=thread"],
                "asan": ["-DFREE_RUNNING", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]}[mode]
        self.jobs = [((name, k), base + inst + ["-c", s, "-o", ob]) for k, (s, ob) in enumerate(zip(src, self.objs))]
        link = ["g++"] + self.objs + ["-o", self.bin, "-pthread"]
        if mode == "sched":
            self.jobs.append(((name, "s"), ["g++", "-std=c++17", "-w", "-O2", "-c", os.path.join(HARNESS, "sched.cpp"), "-I" + HARNESS, "-o", so]))
            link += [so, "-rdynamic", "-ldl"]
        elif mode != "free":
            link += inst[1:]
        self.link, self.ok, self.err = link, False, ""
        self.text = " ".join(base + inst)


def build(ctx, recs):
    res = ctx.compile_all([j for r in recs for j in r.jobs])
    for r in recs:
        bad = [res[j[0]] for j in r.jobs if res[j[0]].rc != 0]
        l = None if bad else run(r.link, timeout=300)
        r.err = bad[0].out if bad else (l.out if l.rc else "")
        r.ok = not r.err and l.rc == 0
        if not r.ok:
            ctx.skipped.append({"config": r.name, "reason": "does not build", "message": r.err[:400]})
            ctx.log("config", r.name, "does not build:", r.err[:300])
    if not any(r.ok for r in recs):
        raise NoBuild("no configuration builds: " + gist(recs[0].err))
    ctx.log("built %d recorders" % sum(r.ok for r in recs))


def script(p):
    L = ["S %d %s %d %d %d" % (p["id"], p["type"], p["nw"], len(p["clients"]), len(p["tasks"]))]
    for t, k in enumerate(p["tasks"]):
        L.append("K %d %s %d %s" % (t, k["k"], k["v"], " ".join(map(str, k["c"]))))
    for c, ops in enumerate(p["clients"]):
        L.append("C %d %s" % (c, " ".join(o["k"] + (str(o["t"]) if o["k"] in "sg" else "") for o in ops)))
    return L


def describe(p):
    return {"id": p["id"], "result type": p["type"], "workers": p["nw"], "tasks": len(p["tasks"]),
            "clients": [" ".join(o["k"] + str(o["t"]) for o in ops)[:120] for ops in p["clients"]]}


def explore(ctx, rec, progs, nrand, npct, ndfs, pre, prop, procs=8, patience=15, timeout=700):
    """Execute the programs under many schedules; validate the distinct traces."""
    groups = [progs[k::procs] for k in range(procs)]
    groups = [g for g in groups if g]

    def one(g):
        s, t = ctx.fresh("script"), ctx.fresh("trace")
        with open(s, "w") as f:
            f.write("\n".join(l for p in g for l in script(p)) + "\n")
        r = run([rec.bin, s, t] + [str(v) for v in (nrand, npct, ndfs, pre, ctx.seed, patience)], env=SAN_ENV, timeout=timeout)
        m = re.search(r"STATS runs=(\d+) uncontrolled=(\d+) complete=(\d+) decisions=(\d+) kinds=(\d+)", r.out)
        if r.timeout or not m:
            raise CheckError("recorder %s gave no answer: rc=%d %s" % (rec.name, r.rc, r.out[-800:]))
        runs, unc, comp, dec, kinds = map(int, m.groups())
        ctx.count("executions (%s)" % rec.name, runs)
        ctx.count("scheduling decisions", dec)
        ctx.count("programs with all schedules of %d preemptions explored" % pre, comp)
        if unc:
            ctx.count("executions given up (blocking not controlled)", unc)
        with open(t, "a") as f:
            f.write('{"e":"Fin"}\n')
        text = open(t).read()
        race = re.search(r"WARNING: ThreadSanitizer: (.*)", r.out) or re.search(r"ERROR: (AddressSanitizer.*)", r.out) \
            or re.search(r"(runtime error: .*)", r.out)
        mx = max([len(p["tasks"]) for p in g] + [1])
        ok, c, n, why = validate(ctx, t, "TracePool", {"PROP": prop, "MAXTASK": str(mx)})
        bad = None
        if not ok or race:
            ev = text.split("\n")
            start = max([i for i in range(0, c + 1) if i < len(ev) and '"e":"Reset"' in ev[i]] or [0])
            pid = json.loads(ev[start]).get("id") if start < len(ev) and ev[start] else None
            sc = next((p for p in g if p["id"] == pid), g[0])
            bad = ("config %s [%s]: %s\nprogram %s" % (rec.name, rec.text, why if not ok else race.group(0), json.dumps(describe(sc))),
                   {"trace.ndjson": "\n".join(ev[start:c + 1]) + "\n", "script.txt": "\n".join(script(sc)) + "\n",
                    "output.txt": r.out[-20000:]})
        os.unlink(s)
        os.unlink(t)
        return bad, kinds, n, unc

    with ThreadPoolExecutor(len(groups)) as ex:
        res = list(ex.map(one, groups))
    for bad, k, n, unc in res:
        if bad:
            ctx.violation(*bad)
        else:
            ctx.traces += k
            ctx.events += n
    for p in progs[:2]:
        if len(ctx.samples) < 4:
            ctx.samples.append(dict(describe(p), config=rec.name))


def models(ctx, plans=(3, 2), faults=(), thorough=False):
    ctx.model("TaskPoolMC", workers=2)
    for p in plans:
        ctx.model("PoolImpl", env={"PLAN": str(p)}, workers=3, name="PoolImpl plan %d" % p)
    for f, inv in faults:
        ctx.model("PoolImpl", env={"PLAN": "3", "FAULT": f}, workers=2, name="PoolImpl with fault " + f, expect=inv)
