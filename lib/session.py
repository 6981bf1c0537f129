"""Sessions: scenarios computed by TLC from the specification, executed by the
recorder compiled from /repo, recorded traces checked by TLC against Session."""
import hashlib, json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from vf import *

CONFIGS = {
    # name: (compiler, standard, flags, macros)
    "A": ("g++", "c++20", ["-O1"], ["INTP_CELL_LAYOUT", "INTP_PERIODIC_NO_DUMMY_POINT"]),
    "B": ("g++", "c++11", ["-O1"], []),
    "C": ("g++", "c++14", ["-O1"], ["INTP_CELL_LAYOUT", "INTP_MULTITHREAD"]),
    "D": ("g++", "c++17", ["-O1"], ["INTP_PERIODIC_NO_DUMMY_POINT", "INTP_MULTITHREAD"]),
    "K": ("clang++", "c++17", ["-O1"], ["INTP_CELL_LAYOUT"]),
}
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]


def inst(d, o, T="double", U="double", nc=1, tag=""):
    return {"d": d, "o": o, "key": "d%do%d%s" % (d, o, tag), "nc": nc, "T": T, "U": U}


def quick_insts():
    return ([inst(1, o) for o in range(0, 8)] + [inst(2, o) for o in range(0, 6)] +
            [inst(3, o) for o in (1, 2, 3)] + [inst(4, 1), inst(4, 2)])


def rare_insts():
    """High orders and dimensions; a few scenarios each."""
    return [inst(1, 8), inst(1, 9), inst(1, 11), inst(2, 6), inst(2, 7), inst(3, 0), inst(3, 4), inst(3, 5), inst(4, 0), inst(4, 3), inst(5, 1), inst(5, 2)]


def long_insts():
    """The same code (keys of quick_insts) on long axes."""
    return [dict(i, xl=True) for i in (inst(1, 0), inst(1, 1), inst(1, 2), inst(1, 3), inst(1, 4), inst(1, 5), inst(2, 1), inst(2, 2), inst(2, 3), inst(3, 1), inst(3, 2))]


def core_insts():
    return [inst(1, o) for o in (0, 1, 2, 3, 4, 5)] + [inst(2, 1), inst(2, 2), inst(2, 3), inst(3, 1), inst(3, 2)]


def weight(i):
    return {1: 1.0, 2: 1.3, 3: 1.6}.get(i["d"], 2.4)


class Recorder:
    """One recorder binary: a configuration and a set of instantiations."""

    def __init__(self, ctx, name, insts, config, extra=(), main="rec_main.cpp", ntu=None, header="rec_sess.hpp", more=()):
        self.ctx, self.name, self.insts, self.config = ctx, name, insts, config
        self.cell = "INTP_CELL_LAYOUT" in config[3]
        self.dir = ctx.fresh("rec")
        os.makedirs(self.dir)
        cxx, std, flags, macros = config
        self.base = [cxx, "-std=" + std, "-w"] + list(flags) + ["-D" + m for m in macros] + list(extra) + \
                    ["-I" + HARNESS, "-I" + INC]
        ntu = ntu or max(1, min(NCPU, len(insts)))
        bins = [[0.0, []] for _ in range(ntu)]
        for i in sorted(insts, key=weight, reverse=True):
            b = min(bins, key=lambda b: b[0])
            b[0] += weight(i)
            b[1].append(i)
        self.jobs, self.objs = [], []
        units = [(header, group) for _, group in bins if group] + list(more)
        for k, (header, group) in enumerate(units):
            src = os.path.join(self.dir, "tu%d.cpp" % k)
            with open(src, "w") as f:
                f.write('#include "%s"\n' % header)
                for i in group:
                    f.write('REC_INST("%s", %s, %d, %d, %s)\n' % (i["key"], i["T"], i["d"], i["o"], i["U"]))
            o = src[:-4] + ".o"
            self.objs.append(o)
            self.jobs.append(((name, k), self.base + ["-c", src, "-o", o]))
        o = os.path.join(self.dir, "main.o")
        self.objs.append(o)
        self.jobs.append(((name, "main"), self.base + ["-c", os.path.join(HARNESS, main), "-o", o]))
        self.bin = os.path.join(self.dir, "rec")
        self.link = self.base + self.objs + ["-o", self.bin, "-pthread"]
        self.ok = False
        self.err = ""

    def flags(self):
        return " ".join(self.base)


def build(ctx, recs):
    """Compile all recorders in parallel.  A configuration that does not build
    is left out (and noted); if none builds there is no verdict."""
    jobs = [j for r in recs for j in r.jobs]
    res = ctx.compile_all(jobs)
    for r in recs:
        bad = [res[j[0]] for j in r.jobs if res[j[0]].rc != 0]
        if bad:
            r.err = bad[0].out
        else:
            l = run(r.link, timeout=300)
            r.err = l.out if l.rc else ""
            r.ok = l.rc == 0
        for o in r.objs:
            if os.path.exists(o):
                os.unlink(o)
        if not r.ok:
            ctx.skipped.append({"config": r.name, "reason": "does not build", "message": r.err[:400]})
            ctx.log("config", r.name, "does not build:", r.err[:300])
    if not any(r.ok for r in recs):
        raise NoBuild("no configuration builds: " + gist(recs[0].err))
    ctx.log("built %d recorders" % sum(r.ok for r in recs))


# ------------------------------------------------------------- generation
def generate(ctx, insts, fam, frm, to, spec="Gen", procs=NCPU, seed=None, env=None):
    """Scenarios frm..to-1, computed by TLC (several processes)."""
    ij, fj = ctx.fresh("inst"), ctx.fresh("fam")
    with open(ij, "w") as f:
        json.dump([{k: i[k] for k in ("d", "o", "key", "nc", "fl", "q", "k", "xl") if k in i} for i in insts], f)
    with open(fj, "w") as f:
        json.dump(fam, f)
    procs = max(1, min(procs, (to - frm + 5) // 6))
    cuts = [frm + (to - frm) * k // procs for k in range(procs + 1)]
    outs = [ctx.fresh("scen") for _ in range(procs)]
    ctx.java()

    def one(k):
        e = {"SEED": str((seed if seed is not None else ctx.seed) % 1000003), "FROM": str(cuts[k]), "TO": str(cuts[k + 1]),
             "INST": ij, "FAM": fj, "OUT": outs[k]}
        e.update(env or {})
        return ctx.tlc(spec, env=e, timeout=800)

    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    scen = []
    for k, r in enumerate(rs):
        if r.rc != 0 or not os.path.exists(outs[k]):
            raise CheckError("scenario generation failed: " + r.out[-1500:])
        with open(outs[k]) as f:
            scen += [json.loads(l) for l in f if l.strip()]
        os.unlink(outs[k])
    ctx.log("generated %d scenarios" % len(scen))
    return scen


# ------------------------------------------------------------- scripts
def axes_line(ax):
    p = []
    for a in ax:
        p += ["1" if a["p"] else "0", "1" if a["u"] else "0", str(a["n"])]
        p += [hexf(a["lo"]), hexf(a["hi"])] if a["u"] else [hexf(v) for v in a["x"]]
    return " ".join(p)


def script_of(sc, cell):
    """Script lines of one scenario (list of strings)."""
    L = ["S %d %s" % (sc["id"], sc["key"])]
    for o in sc["ops"]:
        k = o["op"]
        if "oom" in o and (k not in ("P", "PQ") or cell):
            L.append("O %d" % o["oom"])
        if k == "T":
            L.append("T %d %s" % (o["t"], axes_line(o["ax"])))
        elif k == "F":
            data, nc = o["data"], len(o["data"])
            vals = [hexf(data[c][q]) for q in range(len(data[0])) for c in range(nc)]
            if o.get("c"):
                L.append("W " + json.dumps(o["c"], separators=(",", ":")))
            L.append("F %d %d %s %d %s" % (o["f"], o["t"], o["how"], len(vals), " ".join(vals)))
        elif k == "X":
            p = []
            for a in o["ax"]:
                p += ["1" if a["p"] else "0", "1" if a["u"] else "0", str(a["n"])]
                p += ([hexf(v) for v in a["x"]] if a["u"] else [str(len(a["x"]))] + [hexf(v) for v in a["x"]])
            L.append("X %s %s" % (o["how"], " ".join(p)))
        elif k == "MT":
            L.append("MT %s %d %s" % (" ".join(map(str, o["dims"])), len(o["q"]),
                                      " ".join("%d %d %s" % (q["path"], q["d"], " ".join(map(str, q["i"]))) for q in o["q"])))
        elif k == "BT":
            L.append("BT %d %d %d %d" % (o["n"], o["p"], o["q"], o["x"]))
        elif k == "B":
            p = []
            for a in o["ax"]:
                p += ["1" if a["p"] else "0", str(a["m"]), str(len(a["t"]))] + [hexf(v) for v in a["t"]]
            c = o["c"]
            p += [hexf(c[j][q]) for q in range(len(c[0])) for j in range(len(c))]
            L.append("B %d %s %s" % (o["f"], o["how"], " ".join(p)))
        elif k == "Q" and o["q"] and "h" in o["q"][0]:
            p = []
            for q in o["q"]:
                kk = "vh" if q["k"] == "pre" and not cell else q["k"]
                p += [kk] + [hexf(v) for v in q["x"]] + [str(v) for v in q["h"]] + [str(v) for v in q["d"]]
            L.append("Q %d %d %s" % (o["f"], len(o["q"]), " ".join(p)))
        elif k == "Q":
            p = []
            for q in o["q"]:
                p.append(q["k"])
                p += [hexf(v) for v in q["x"]]
                if q["k"][0] == "d" or q["k"][:2] == "wd":
                    p += [str(v) for v in q["d"]]
                if q["k"] == "node":
                    p += [str(v) for v in q["i"]]
            L.append("Q %d %d %s" % (o["f"], len(o["q"]), " ".join(p)))
        elif k == "P":
            if cell:
                L.append("P %d %d %d %s" % (o["p"], o["t"], o["form"], " ".join(hexf(v) for v in o["x"])))
        elif k == "PQ":
            if cell:
                L.append("PQ %d %d" % (o["p"], o["f"]))
        elif k == "A":
            L.append("A %d" % o["k"])
        elif k in ("TDel", "FDefault", "FDel", "Info", "BInfo"):
            L.append("%s %d" % (k, o["t"] if k == "TDel" else o["f"]))
        elif k in ("TCopy", "TMove", "TAssign", "TMoveAssign"):
            L.append("%s %d %d" % (k, o["t"], o["s"]))
        elif k in ("FCopy", "FMove", "FAssign", "FMoveAssign"):
            L.append("%s %d %d" % (k, o["f"], o["g"]))
        else:
            raise CheckError("unknown op " + k)
    return L


def describe(sc):
    """Short human-readable form of a scenario, for evidence."""
    ax = next((o["ax"] for o in sc["ops"] if o["op"] in ("T", "B")), [])
    def one(a):
        if "t" in a:
            return ("periodic" if a["p"] else "aperiodic") + " knots %d" % len(a["t"])
        return ("periodic" if a["p"] else "aperiodic") + (" uniform" if a["u"] else " nonuniform") + " n=%d" % a["n"]
    ops = [o["op"] for o in sc["ops"]]
    qs = [o for o in sc["ops"] if o["op"] == "Q"]
    q = qs[0]["q"][-1] if qs and qs[0]["q"] else None
    return {"id": sc["id"], "instantiation": sc["key"], "axes": [one(a) for a in ax], "ops": ops[:40],
            "a query": q and {"kind": q["k"], "x": q["x"], "d": q["d"]}}


# ------------------------------------------------------------- execution
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
           "TSAN_OPTIONS": "exitcode=77:halt_on_error=0:second_deadlock_stack=1:suppressions=" + os.path.join(HARNESS, "tsan.supp")}


def record(ctx, rec, lines, tag, timeout=120, env=None):
    s, t = ctx.fresh("script"), ctx.fresh("trace")
    with open(s, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = dict(SAN_ENV)
    e.update(env or {})
    # freed and fresh heap memory holds garbage: reading it shows in the trace
    e.setdefault("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.perturb=165")
    r = run([rec.bin, s, t], env=e, timeout=timeout)
    os.unlink(s)
    return r, t


def split_scripts(lines_list, k):
    """Distribute scenarios over k scripts, balanced by size."""
    bins = [[0, []] for _ in range(max(1, k))]
    for n, L in sorted(enumerate(lines_list), key=lambda p: -sum(map(len, p[1]))):
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(map(len, L)) + 200
        b[1].append(n)
    return [sorted(b[1]) for b in bins if b[1]]


def validate(ctx, trace, spec="TraceSession", env=None, timeout=800):
    """Returns (ok, consumed, length, reason)."""
    e = {"TRACE": trace}
    e.update(env or {})
    r = ctx.tlc(spec, env=e, timeout=timeout)
    if "HARNESS" in r.out:
        raise CheckError("harness: " + r.out[r.out.index("HARNESS"):][:600])
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', r.out)
    if r.timeout or not m:
        raise CheckError("trace validation gave no verdict: " + r.out[-1500:])
    d, g = ctx.stats(r.out)
    ctx.states += d
    ctx.transitions += g
    c, n = int(m.group(1)), int(m.group(2))
    if c == n and r.rc == 0:
        return True, c, n, ""
    why = re.search(r'<<\s*"REJECTED".*?>>\n(?=\S)', r.out, re.S)
    return False, c, n, (why.group(0) if why else "no action of the specification allows the event")[:1500]


def exercise(ctx, rec, scen, spec="TraceSession", timeout=120, procs=4, env=None, check_trace=True, venv=None,
             script_of=script_of, describe=describe):
    """Execute scenarios in one recorder and validate what it recorded."""
    scripts = [script_of(s, rec.cell) for s in scen]
    groups = split_scripts(scripts, procs)

    def one(g):
        lines = [l for n in g for l in scripts[n]]
        r, t = record(ctx, rec, lines, rec.name, timeout, env)
        text = open(t).read() if os.path.exists(t) else ""
        bad = None
        if r.rc != 0:
            # which scenario was being executed
            ids = re.findall(r'"e":"Reset","id":(-?\d+)', text)
            n = len(ids) - 1
            sc = scen[g[n]] if 0 <= n < len(g) else scen[g[0]]
            if r.rc in (64, 65, 66, 67, 68, 69):
                raise CheckError("recorder refused its script: %d %s" % (r.rc, r.out[-300:]))
            # run it again alone: the verdict must not depend on the other scenarios' timing
            r2, t2 = record(ctx, rec, script_of(sc, rec.cell), rec.name, timeout * 2, env)
            if r.timeout and not r2.timeout and r2.rc == 0:
                raise CheckError("recorder timed out once but not again")
            what = "timeout (no termination)" if r.timeout else "died with status %d" % r.rc
            bad = ("recorder %s [%s] %s in scenario %s\n%s" % (rec.name, rec.flags(), what, json.dumps(describe(sc)), r.out[-3000:]),
                   {"script.txt": "\n".join(script_of(sc, rec.cell)) + "\n", "output.txt": r.out[-20000:],
                    "scenario.json": json.dumps(sc)})
            return bad, t, 0, 0
        if not check_trace:
            return None, t, len(g), text.count("\n")
        # a trace already accepted need not be checked again
        h = hashlib.sha256((spec + repr(venv) + text).encode()).hexdigest()
        if h in ctx.accepted:
            ctx.count("traces files identical to accepted ones")
            return None, t, len(g), text.count("\n")
        ok, c, n, why = validate(ctx, t, spec, venv)
        if ok:
            ctx.accepted.add(h)
        if not ok:
            ev = text.split("\n")
            k = c
            start = max([i for i in range(0, c + 1) if i < len(ev) and '"e":"Reset"' in ev[i]] or [0])
            idx = sum(1 for i in range(0, c + 1) if i < len(ev) and '"e":"Reset"' in ev[i]) - 1
            sc = scen[g[idx]] if 0 <= idx < len(g) else None
            bad = ("config %s [%s]: recorded event %d is not allowed by the specification: %s\nscenario %s" %
                   (rec.name, rec.flags(), c + 1, why, json.dumps(describe(sc)) if sc else "?"),
                   {"trace.ndjson": "\n".join(ev[start:c + 1]) + "\n",
                    "script.txt": "\n".join(script_of(sc, rec.cell)) + "\n" if sc else "",
                    "scenario.json": json.dumps(sc)})
        return bad, t, len(g), n

    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, groups))
    for bad, t, ns, ne in res:
        if bad:
            ctx.violation(*bad)
        else:
            ctx.traces += ns
            ctx.events += ne
        if os.path.exists(t):
            os.unlink(t)
    for s in scen[:2]:
        if len(ctx.samples) < 4:
            ctx.samples.append(dict(describe(s), config=rec.name))


def tally(ctx, scen):
    for s in scen:
        ctx.count("scenarios")
        for o in s["ops"]:
            if o["op"] == "Q":
                for q in o["q"]:
                    ctx.count("query " + q["k"])
            else:
                ctx.count("op " + o["op"])


def parallel(*fs):
    with ThreadPoolExecutor(len(fs)) as ex:
        hs = [ex.submit(f) for f in fs]
        return [h.result() for h in hs]
