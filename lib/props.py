"""The check of each property."""
import json, os, random, sys
from vf import *
import vf
from session import *
import hist
import meshband as mb
import pool
import par

TITLES = {}
with open(os.path.join(VERIF, "properties.jsonl")) as f:
    for l in f:
        if l.strip():
            p = json.loads(l)
            TITLES[p["id"]] = p["title"]


def spline_model(c, maxo=3, extra=2, workers=4):
    c.model("RatCheck", workers=1, timeout=300)
    c.model("SplineMC", env={"MAXO": str(maxo), "MAXEXTRA": str(extra)}, workers=workers)


def sessions(c, fam, insts, configs, n, model=None, spec="TraceSession", extra=()):
    """generate || compile || model check, then execute and validate"""
    recs = [Recorder(c, name, insts, CONFIGS[name], extra=extra) for name in configs]
    c.java()
    jobs = [lambda: build(c, recs), lambda: generate(c, insts, fam, 0, n, procs=4)]
    if model:
        jobs.append(model)
    scen = parallel(*jobs)[1]
    tally(c, scen)
    per = max(1, NCPU // max(1, sum(r.ok for r in recs)))
    parallel(*[(lambda r=r: exercise(c, r, scen, spec=spec, procs=per)) for r in recs if r.ok])
    return recs


def queries(c, fam, a="AB", b="CD", n=608):
    """C01-C05: all instantiations in configurations A and B, the common ones also in
    C and D, and a few scenarios of rare instantiations (high order, many dimensions)."""
    n = 5 * n if c.thorough else n
    few = 24 if c.thorough else 4
    every, rare, core = quick_insts(), rare_insts(), core_insts()
    full = [Recorder(c, k, every + rare, CONFIGS[k]) for k in a]
    part = [Recorder(c, k, core, CONFIGS[k]) for k in b]
    c.java()
    rfam = {k: min(v, 8) for k, v in fam.items()}
    long = long_insts()
    _, scen, rscen, lscen, _ = parallel(lambda: build(c, full + part), lambda: generate(c, every, fam, 0, n, procs=4),
                                 lambda: generate(c, rare, rfam, 20000, 20000 + few * len(rare), procs=4),
                                 lambda: generate(c, long, fam, 30000, 30000 + (12 if c.thorough else 2) * len(long), procs=4),
                                 lambda: spline_model(c, 5 if c.thorough else 3, 3 if c.thorough else 2))
    scen = rscen + lscen + scen
    tally(c, scen)
    ckeys = {i["key"] for i in core}
    half = [s for s in scen if s["key"] in ckeys][::2]
    rest = [s for s in scen if s["key"] in ckeys][1::2]
    parallel(*[(lambda r=r, s=s: exercise(c, r, s, procs=p)) for r, s, p in
               [(full[0], scen, 3), (full[1], scen, 3), (part[0], half, 1), (part[1], rest, 1)] if r.ok])


def C01(c):
    queries(c, {"node": 60, "info": 1, "graded": 1})


def C02(c):
    queries(c, {"in": 14, "knot": 6})


def C03(c):
    queries(c, {"shift": 20})


def C04(c):
    queries(c, {"der": 20})


def C05(c):
    queries(c, {"out": 20, "wild": 12, "info": 1})


def C06(c):
    insts = [inst(1, 3), inst(1, 2), inst(2, 2), inst(2, 3), inst(3, 1)]
    if c.thorough:
        insts += [inst(1, 0), inst(1, 4), inst(2, 1), inst(3, 2), inst(4, 1)]
    names = ["A", "B", "C", "D"]
    recs = [Recorder(c, n, insts, CONFIGS[n], ntu=3) for n in names]
    c.java()
    rng = random.Random(c.seed)
    per = 8
    _, pool, g = parallel(lambda: build(c, recs), lambda: hist.pools(c, insts, per), lambda: hist.graph(c, 2, 2, 1))
    recs = [r for r in recs if r.ok]
    budget = 60000 if c.thorough else 6000
    walks, cov, total = hist.tours(g, rng, budget, 60)
    c.counts["transitions of the history graph"] = total
    c.counts["transitions executed on the code"] = cov
    c.log("%d walks cover %d of %d transitions" % (len(walks), cov, total))
    per_rec = {r.name: [] for r in recs}
    for k, w in enumerate(walks):
        i = insts[k % len(insts)]
        r = recs[(k // len(insts)) % len(recs)]
        ms = rng.sample(pool[i["key"]], 2)
        per_rec[r.name].append(hist.concrete(w, k, i["key"], {1: ms[0], 2: ms[1]}, rng))
    for v in per_rec.values():
        tally(c, v)
    parallel(*[(lambda r=r: exercise(c, r, per_rec[r.name], procs=2)) for r in recs])


def C21(c):
    """Histories as in C06 in which every allocation of an operation fails in turn."""
    insts = [inst(1, 3), inst(1, 2), inst(2, 2), inst(2, 3), inst(3, 1)]
    flt = [inst(1, 2, "rec::Fault", "double", 1, "flt"), inst(2, 3, "rec::Fault", "double", 1, "flt"), inst(3, 1, "rec::Fault", "double", 1, "flt")]
    if c.thorough:
        insts += [inst(1, 0), inst(1, 4), inst(2, 1), inst(3, 2), inst(4, 1)]
    recs = [Recorder(c, n, insts + (flt if n in "AB" else []), CONFIGS[n], extra=["-DREC_OOM"] + SAN, ntu=3) for n in "ABCD"]
    c.java()
    rng = random.Random(c.seed)
    _, pool_, g, fscen, _ = parallel(
        lambda: build(c, recs), lambda: hist.pools(c, insts, 8), lambda: hist.graph(c, 2, 2, 1),
        lambda: generate(c, flt, {"in": 3, "node": 2, "der": 2, "data": 3}, 50000, 50000 + (120 if c.thorough else 24), procs=2),
        lambda: c.model("Hist", env={"NT": "2", "NF": "2", "NP": "1", "FAILS": "1"}, workers=2, name="Hist with failing operations"))
    recs = [r for r in recs if r.ok]
    walks, cov, total = hist.tours(g, rng, 20000 if c.thorough else 2400, 40)
    c.counts["transitions of the history graph"] = total
    c.counts["transitions executed on the code"] = cov
    per_rec = {r.name: [] for r in recs}
    for k, w in enumerate(walks):
        i = insts[k % len(insts)]
        r = recs[(k // len(insts)) % len(recs)]
        ms = rng.sample(pool_[i["key"]], 2)
        sc = hist.concrete(w, k, i["key"], {1: ms[0], 2: ms[1]}, rng)
        for o in sc["ops"]:
            if par.may_fail(o) and rng.random() < .4:
                o["oom"] = rng.randrange(2)
                c.count("operations with failing allocations")
        if r.name in "CD":          # the first one makes the thread pool
            next((o for o in sc["ops"] if o["op"] == "F" and par.may_fail(o)), {})["oom"] = k // 7 % 2
        per_rec[r.name].append(sc)
    for r in recs:
        if r.name in "AB":
            per_rec[r.name] += [dict(s, ops=par.vary(s["ops"], rng, fault=True)) for s in fscen]
    for v in per_rec.values():
        tally(c, v)
    parallel(*[(lambda r=r: exercise(c, r, per_rec[r.name], procs=2)) for r in recs])


def C07(c):
    queries(c, {"proxy": 10, "data": 1}, "AC", "BD", 304)


def C18(c):
    n = 400 if c.thorough else 72
    insts = [inst(1, o) for o in (0, 1, 2, 3, 4, 5)] + [inst(2, 2), inst(2, 3), inst(3, 1)]
    try:
        recs = sessions(c, {"routes": 1, "int": 6, "proxy": 4, "in": 4, "node": 4, "der": 4, "shift": 2, "out": 4, "info": 1}, insts, ["A", "B", "D", "K"], n,
                 extra=["-DREC_ROUTES"],
                 model=lambda: spline_model(c, 5 if c.thorough else 3, 3 if c.thorough else 2))
    except NoBuild as e:
        plain = Recorder(c, "without the overloads", [inst(1, 3), inst(2, 2)], CONFIGS["A"])
        build(c, [plain])
        c.violation("construction or call forms do not compile: %s" % e, {"command.txt": plain.flags()})
        return
    for r in recs:
        if not r.ok:        # do the overloads no longer compile here, or does nothing?
            plain = Recorder(c, r.name + " without the overloads", [inst(1, 3), inst(2, 2)], r.config)
            try:
                build(c, [plain])
            except NoBuild:
                continue
            c.violation("construction or call forms do not compile: " + r.err[:2000], {"command.txt": r.flags()})


def C16(c):
    n = 800 if c.thorough else 120
    cd, cf = "std::complex<double>", "std::complex<float>"
    fl = lambda i: dict(i, fl=True)
    insts = ([fl(inst(1, o, "float", "float", 1, "ff")) for o in (1, 2, 3, 4)] +
             [fl(inst(1, 3, "float", "double", 1, "fd")), fl(inst(1, 3, "double", "float", 1, "df")), fl(inst(1, 2, "double", "float", 1, "df"))] +
             [fl(inst(2, 3, "float", "float", 1, "ff")), fl(inst(2, 2, "double", "float", 1, "df"))] +
             [fl(inst(1, o, cd, "double", 2, "cd")) for o in (1, 2, 3, 5)] + [fl(inst(2, 2, cd, "double", 2, "cd")), fl(inst(2, 3, cf, "float", 2, "cf"))] +
             [fl(inst(1, o, "rec::Vec2", "double", 2, "v2")) for o in (0, 2, 3, 4)] +
             [fl(inst(2, 1, "rec::Vec2", "double", 2, "v2")), fl(inst(2, 3, "rec::Vec2", "double", 2, "v2")), fl(inst(3, 2, "rec::Vec2", "double", 2, "v2"))])
    try:
        values(c, insts, n)
    except NoBuild as e:
        # is it these value types, or does nothing build?
        plain = Recorder(c, "real numbers only", [inst(1, 3), inst(2, 2)], CONFIGS["A"])
        build(c, [plain])
        c.violation("value types with vector-space operations can not be interpolated (do not compile): %s" % e, {"command.txt": plain.flags()})


def values(c, insts, n):
    sessions(c, {"coarse": 1, "in": 6, "node": 6, "der": 6, "shift": 3, "out": 4, "proxy": 2}, insts, ["A", "B"], n,
             model=lambda: spline_model(c, 5 if c.thorough else 3, 3 if c.thorough else 2))


def C19(c):
    n, steps = (480, 80) if c.thorough else (80, 40)
    mk = lambda extra="", m=(): [mb.Simple(c, "c++11" + extra, "rec_alloc.cpp", std="c++11", flags=["-O0"], macros=m),
                                 mb.Simple(c, "c++17 sanitized" + extra, "rec_alloc.cpp", std="c++17", flags=["-O0"] + SAN, macros=m)]
    recs = mk()
    if c.thorough:
        recs.append(mb.Simple(c, "clang c++20", "rec_alloc.cpp", cxx="clang++", std="c++20", flags=["-O0"]))
    c.java()
    err = []

    def compiles():
        try:
            mb.build(c, recs)
        except CheckError as e:
            # which part of the interface can no longer be used?
            for what, m in (("dispatch_indexed can not be called", ["NO_DISPATCH"]), ("aligned-allocator.hpp can not be included on its own", ["NOT_ALONE"])):
                less = mk(" (%s)" % m[0], m)
                try:
                    mb.build(c, less)
                except CheckError:
                    continue
                c.violation(what + " (does not compile): " + str(e)[:800], {"command.txt": recs[0].flags()})
                recs[:] = less
                return
            raise
    _, scen, _ = parallel(compiles,
                          lambda: generate(c, [], {}, 0, n, spec="GenAlloc", env={"STEPS": str(steps)}),
                          lambda: c.model("AllocMC", env={"CAP": "6" if c.thorough else "5"}))
    for s in scen:
        for o in s["ops"]:
            c.count(o["op"])
    c.counts["alignments x element types"] = len(set(s["key"] for s in scen))
    parallel(*[(lambda r=r: exercise(c, r, scen, spec="TraceAlloc", procs=4, script_of=mb.alloc_script, describe=mb.alloc_describe))
               for r in recs if r.ok])


def C13(c):
    maxn, steps = (4, 30) if c.thorough else (3, 16)
    total = sum(maxn ** d for d in (1, 2, 3, 4))
    rounds = 6 if c.thorough else 3
    recs = [mb.Simple(c, "c++11", "rec_mesh.cpp", std="c++11", flags=["-O0"]),
            mb.Simple(c, "c++20 sanitized", "rec_mesh.cpp", std="c++20", flags=["-O0"] + SAN)]
    c.java()
    _, scen, _ = parallel(
        lambda: mb.build(c, recs),
        lambda: generate(c, [], {}, 0, total * rounds, spec="GenMesh", env={"MAXN": str(maxn), "STEPS": str(steps)}),
        lambda: c.model("MeshMC", env={"MAXD": "5" if c.thorough else "4", "MAXN": "4" if c.thorough else "3"}))
    for s in scen:
        for o in s["ops"]:
            c.count(o["op"])
    c.counts["shapes (all with sizes up to %d in up to 4 dimensions)" % maxn] = total
    parallel(*[(lambda r=r: exercise(c, r, scen, spec="TraceMesh", procs=4, script_of=mb.mesh_script, describe=mb.mesh_describe))
               for r in recs if r.ok])


def C12(c):
    maxn, maxb = (7, 4) if c.thorough else (6, 3)
    combos = 2 * maxn * (maxb + 1) ** 2
    n = combos * 6 if c.thorough else combos * 2
    recs = [mb.Simple(c, "c++11", "rec_band.cpp", std="c++11"),
            mb.Simple(c, "c++20 sanitized", "rec_band.cpp", std="c++20", flags=["-O0"] + SAN)]
    c.java()
    _, scen, _, _ = parallel(
        lambda: mb.build(c, recs),
        lambda: generate(c, [], {}, 0, n, spec="GenBand", env={"MAXN": str(maxn), "MAXB": str(maxb)}, procs=4),
        lambda: c.model("RatCheck", workers=1),
        lambda: c.model("BandMC", env={"MAXN": "7" if c.thorough else "5", "MAXB": "4" if c.thorough else "3"}, workers=2))
    for s in scen:
        for o in s["ops"]:
            c.count(o["op"] + (" " + o["form"] if "form" in o else ""))
    c.counts["size/bandwidth combinations (all up to n=%d, bandwidth %d)" % (maxn, maxb)] = combos
    parallel(*[(lambda r=r: exercise(c, r, scen, spec="TraceBand", procs=4, script_of=mb.band_script, describe=mb.band_describe))
               for r in recs if r.ok])


def C17(c):
    n = 900 if c.thorough else 150
    q = lambda i, k: dict(i, q=k)
    insts = ([q(inst(1, o), 14) for o in range(0, 7)] + [q(inst(2, o), 10) for o in range(0, 5)] +
             [q(inst(3, o), 8) for o in (0, 1, 2, 3)] + [q(inst(4, 1), 6), q(inst(4, 2), 5)] +
             [q(inst(2, 3, "std::complex<double>", "double", 2, "cd"), 8), q(inst(1, 3, "float", "float", 1, "ff"), 10)])
    mk = lambda n: Recorder(c, n, insts, CONFIGS[n], header="rec_bspl.hpp", ntu=4)
    recs = [mk("A"), mk("B")] + ([mk("C"), mk("D")] if c.thorough else [])
    c.java()
    o, s = ("4", "4") if c.thorough else ("2", "3")
    scen = parallel(lambda: build(c, recs),
                    lambda: generate(c, insts, {}, 0, n, spec="GenBSpline", procs=4),
                    lambda: c.model("BSplineMC", env={"MAXO": o, "MAXS": s}, workers=4))[1]
    tally(c, scen)
    parallel(*[(lambda r=r: exercise(c, r, scen, procs=4)) for r in recs if r.ok])


def C15(c):
    k = lambda i, kind: dict(i, k=kind)
    xi = [k(inst(1, 0), "x"), k(inst(1, 1), "x"), k(inst(1, 2), "x"), k(inst(1, 3), "x"), k(inst(2, 2), "x"), k(inst(2, 3), "x"), k(inst(3, 1), "x")]
    bi = [k(inst(1, 0, tag="b"), "b"), k(inst(1, 1, tag="b"), "b"), k(inst(1, 3, tag="b"), "b"), k(inst(2, 2, tag="b"), "b"), k(inst(3, 1, tag="b"), "b")]
    ti = [{"d": d, "o": 0, "key": "mesh%d" % d, "nc": 1, "k": "m"} for d in (1, 2, 3, 4)] + [{"d": 1, "o": 0, "key": "band", "nc": 1, "k": "t"}]
    AS = "INTP_ENABLE_ASSERTION"
    sp = lambda cfg, n, san: (cfg[0], cfg[1], ["-O0"] + SAN if san else ["-O1"], cfg[3] + [AS])
    recs = [Recorder(c, n + "+assert" + ("" if n in "B" else " sanitized"), xi, sp(CONFIGS[n], n, n != "B"), extra=["-DREC_ROUTES"], ntu=3,
                     more=[("rec_bspl.hpp", bi[:3]), ("rec_bspl.hpp", bi[3:]), ("rec_try.hpp", [])])
            for n in (["A", "B", "C", "D"] if c.thorough else ["A", "B", "D"])]
    c.java()
    tot = len(xi + bi + ti) * (54 if c.thorough else 18)
    jobs = [lambda: build(c, recs),
            lambda: generate(c, xi + bi + ti, {}, 0, tot, spec="GenReject", procs=3),
            lambda: generate(c, xi, {"in": 6, "node": 8, "der": 6, "shift": 4, "out": 6, "proxy": 2}, 0, 700 if c.thorough else 84, procs=3)]
    _, scen, good = parallel(*jobs)
    for s in scen:
        for o in s["ops"]:
            c.count("attempt " + o["op"], len(o["q"]) if o["op"] == "MT" else 1)
    tally(c, good)
    recs = [r for r in recs if r.ok]
    parallel(*([(lambda r=r: exercise(c, r, scen, spec="TraceReject", procs=2, describe=lambda s: {"id": s["id"], "instantiation": s["key"], "attempts": s["ops"][:2]})) for r in recs] +
               [(lambda r=r: exercise(c, r, good, procs=2)) for r in recs]))


MACROS = ["INTP_CELL_LAYOUT", "INTP_PERIODIC_NO_DUMMY_POINT", "INTP_MULTITHREAD", "INTP_ENABLE_ASSERTION"]
STDS = ["c++11", "c++14", "c++17", "c++20", "c++23"]


def config_matrix(full):
    """Build configurations: all combinations of the four macros, standards and
    compilers (thorough), or a set covering all triples of them (quick), and the
    remaining macros."""
    import itertools
    allc = [(cxx, std, tuple(m for m, b in zip(MACROS, bits) if b))
            for cxx in ("g++", "clang++") for std in STDS for bits in itertools.product((0, 1), repeat=4)]
    if full:
        pick = allc
    else:
        feats = lambda k: [("cxx", k[0]), ("std", k[1])] + [(m, m in k[2]) for m in MACROS]
        need = {t for k in allc for t in itertools.combinations(feats(k), 3)}
        pick = []
        while need:
            best = max(allc, key=lambda k: (len(need & set(itertools.combinations(feats(k), 3))), -allc.index(k)))
            pick.append(best)
            need -= set(itertools.combinations(feats(best), 3))
    out = [(cxx, std, ["-O1" if i % 3 else "-O0"], list(m)) for i, (cxx, std, m) in enumerate(pick)]
    cell = "INTP_CELL_LAYOUT"
    out += [("g++", "c++11", ["-O0"], ["INTP_DEBUG"]), ("g++", "c++20", ["-O0"], ["INTP_DEBUG", cell]),
            ("g++", "c++17", ["-O0"], ["INTP_DEBUG", "INTP_TRACE", "INTP_MULTITHREAD", cell]), ("clang++", "c++14", ["-O0"], ["INTP_DEBUG", "INTP_TRACE"]),
            ("g++", "c++17", ["-O1"], ["INTP_STACK_ALLOCATOR"]), ("clang++", "c++11", ["-O1"], ["INTP_STACK_ALLOCATOR", cell, "INTP_MULTITHREAD"]),
            ("g++", "c++14", ["-O1"], ["INTP_STACK_ALLOCATOR", cell]), ("g++", "c++20", ["-O3", "-march=native"], [cell]),
            ("clang++", "c++20", ["-O3"], ["INTP_MULTITHREAD"]), ("g++", "gnu++17", ["-O2", "-DNDEBUG"], [cell])]
    return out


def C08(c):
    # every configuration gets two of these, so that neighbours in the matrix share none
    var = [inst(1, 3), inst(2, 2), inst(1, 2), inst(2, 3), inst(1, 4), inst(3, 2), inst(1, 1), inst(2, 1), inst(1, 0), inst(1, 5), inst(3, 1)]
    nv = len(var)
    cfgs = config_matrix(c.thorough)
    names = [cfg[0] + " " + cfg[1] + " " + " ".join(cfg[2]) + " " + " ".join(m.replace("INTP_", "") for m in cfg[3]) for cfg in cfgs]
    recs = []
    for i, cfg in enumerate(cfgs):
        recs.append(Recorder(c, names[i], [var[i % nv], var[(i + 1 + i // nv % (nv - 1)) % nv]], cfg, ntu=1))
    c.java()
    fam = {"node": 10, "in": 8, "knot": 4, "der": 10, "shift": 6, "out": 8, "proxy": 3, "info": 1, "data": 1}
    per = 24 if c.thorough else 12
    wide = quick_insts() if c.thorough else [inst(1, 6), inst(2, 0), inst(2, 4), inst(3, 2), inst(3, 3), inst(4, 1), inst(4, 2)]
    wrecs = [Recorder(c, "wide " + k, wide, CONFIGS[k], ntu=4) for k in "ABCD"]
    _, scen, wscen = parallel(lambda: build(c, wrecs + recs), lambda: generate(c, var, fam, 0, per * len(var), procs=4),
                              lambda: generate(c, wide, fam, 9000, 9000 + (24 if c.thorough else 10) * len(wide), procs=4))
    recs = wrecs + recs
    tally(c, wscen)
    tally(c, scen)
    c.counts["build configurations"] = len(cfgs)
    for r in recs:
        if not r.ok:
            c.violation("configuration %s does not compile although others do: %s" % (r.name, r.err[:2000]), {"command.txt": r.flags()})
    from concurrent.futures import ThreadPoolExecutor
    def one(r):
        keys = {i["key"] for i in r.insts}
        if r in wrecs:
            exercise(c, r, wscen, procs=2)
        else:
            exercise(c, r, [s for s in scen if s["key"] in keys], procs=1)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, [r for r in recs if r.ok]))


class Valgrind:
    """The same recorder under memcheck: uninitialised values."""

    def __init__(self, rec):
        self.rec = rec
        self.name, self.cell, self.ok = rec.name + " memcheck", rec.cell, rec.ok
        self.bin = os.path.join(rec.dir, "vg.sh")
        with open(self.bin, "w") as f:
            f.write("#!/bin/sh\nexec valgrind -q --error-exitcode=77 --track-origins=yes --leak-check=no '%s' \"$@\"\n" % rec.bin)
        os.chmod(self.bin, 0o755)

    def flags(self):
        return "valgrind " + self.rec.flags()


def C14(c):
    fam = {"wild": 16, "node": 8, "in": 6, "knot": 3, "der": 8, "shift": 5, "out": 6, "proxy": 4, "data": 1, "info": 1}
    insts = quick_insts() if c.thorough else ([inst(1, o) for o in (0, 1, 2, 3, 4, 6)] + [inst(2, o) for o in (0, 1, 2, 3)] + [inst(3, 1), inst(3, 2), inst(4, 1)])
    n = len(insts) * (48 if c.thorough else 12)
    san = lambda k: (CONFIGS[k][0], CONFIGS[k][1], ["-O1"] + SAN, CONFIGS[k][3])
    recs = [Recorder(c, k + " sanitized", insts, san(k), ntu=5) for k in "ABCD"]
    vins = [inst(1, 2), inst(1, 3), inst(2, 2), inst(2, 3), inst(3, 1)]
    vrecs = [Recorder(c, k, vins, (CONFIGS[k][0], CONFIGS[k][1], ["-O1", "-g"], CONFIGS[k][3]), ntu=2) for k in ("AB" if not c.thorough else "ABC")]
    simple = [mb.Simple(c, "mesh sanitized", "rec_mesh.cpp", std="c++17", flags=["-O1"] + SAN),
              mb.Simple(c, "band sanitized", "rec_band.cpp", std="c++17", flags=["-O1"] + SAN)]
    c.java()
    vn = len(vins) * (24 if c.thorough else 8)
    res = parallel(lambda: build(c, recs + vrecs), lambda: mb.build(c, simple),
                   lambda: generate(c, insts, fam, 0, n, procs=4),
                   lambda: generate(c, vins, fam, 5000, 5000 + vn, procs=1),
                   lambda: generate(c, [], {}, 0, 120, spec="GenMesh", env={"MAXN": "3", "STEPS": "16"}, procs=1),
                   lambda: generate(c, [], {}, 0, 144, spec="GenBand", env={"MAXN": "6", "MAXB": "3"}, procs=1))
    scen, vscen, mscen, bscen = res[2:]
    tally(c, scen)
    tally(c, vscen)
    jobs = [(lambda r=r: exercise(c, r, scen, procs=2)) for r in recs if r.ok]
    jobs += [(lambda r=r: exercise(c, Valgrind(r), vscen, procs=2, timeout=400)) for r in vrecs if r.ok]
    if simple[0].ok:
        jobs.append(lambda: exercise(c, simple[0], mscen, spec="TraceMesh", procs=1, script_of=mb.mesh_script, describe=mb.mesh_describe))
    if simple[1].ok:
        jobs.append(lambda: exercise(c, simple[1], bscen, spec="TraceBand", procs=1, script_of=mb.band_script, describe=mb.band_describe))
    parallel(*jobs)


def main(prop):
    vf.main(prop, TITLES[prop], globals()[prop])


def pool_check(c, prop, faults):
    recs = [pool.Rec(c, "c++17 controlled", "rec_pool.cpp", "c++17"),
            pool.Rec(c, "c++11 controlled", "rec_pool.cpp", "c++11"),
            pool.Rec(c, "c++14 free running", "rec_pool.cpp", "c++14", mode="free", opt="-O2"),
            pool.Rec(c, "c++20 thread sanitizer", "rec_pool.cpp", "c++20", mode="tsan"),
            pool.Rec(c, "c++17 address sanitizer", "rec_pool.cpp", "c++17", mode="asan")]
    c.java()
    n = 400 if c.thorough else 96
    _, progs, _ = parallel(lambda: pool.build(c, recs),
                           lambda: generate(c, [], {}, 0, n, spec="GenPool", procs=2),
                           lambda: pool.models(c, (1, 2, 3, 4, 5) if c.thorough else (4, 3), faults, c.thorough))
    small = [p for p in progs if p["small"]]
    k = 10 if c.thorough else 1
    plan = [(recs[0], progs, 60 * k, 30 * k, 0, 0), (recs[0], small, 0, 0, 2000 * k, 2 if c.thorough else 1),
            (recs[1], progs[1::2], 30 * k, 10 * k, 0, 0), (recs[2], progs, 40 * k, 0, 0, 0),
            (recs[3], progs, 3 * k, 0, 0, 0), (recs[4], progs, 3 * k, 0, 0, 0)]
    for r, ps, a, b, d, pre in plan:
        if r.ok:
            pool.explore(c, r, ps, a, b, d, pre, prop)
            c.log("explored:", r.name)
            if c.violations:
                return


def C10(c):
    pool_check(c, "C10", [("copysteal", "NoStuck"), ("lose", "Complete")])


def C11(c):
    pool_check(c, "C11", [("nolock", "Complete"), ("nopred", "Complete"), ("notifyone", "Complete"), ("nonotify", "Complete"), ("nojoin", "NoStuck")])


def C09(c):
    insts = [inst(1, 3), inst(1, 2), inst(2, 1), inst(2, 2), inst(2, 3), inst(3, 1), inst(3, 2), inst(4, 1)]
    flt = [inst(1, 2, "rec::Fault", "double", 1, "flt"), inst(2, 2, "rec::Fault", "double", 1, "flt"),
           inst(2, 3, "rec::Fault", "double", 1, "flt"), inst(3, 1, "rec::Fault", "double", 1, "flt")]
    every = insts + flt
    mt = ["INTP_MULTITHREAD"]
    recs = [par.recorder(c, "c++14 cells, controlled", every, "c++14", mt + ["INTP_CELL_LAYOUT"], "sched"),
            par.recorder(c, "c++17 controlled", every, "c++17", mt + ["INTP_PERIODIC_NO_DUMMY_POINT"], "sched"),
            par.recorder(c, "c++17 cells, thread sanitizer", every, "c++17", mt + ["INTP_CELL_LAYOUT"], "tsan"),
            par.recorder(c, "c++14 cells, address sanitizer", every, "c++14", mt + ["INTP_CELL_LAYOUT"], "asan")]
    c.java()
    n = 240 if c.thorough else 48

    def models():
        c.model("ParBuild", env={"H": "5"}, workers=2, name="ParBuild 5")
        if c.thorough:
            c.model("ParBuild", env={"H": "7", "PASSES": "3"}, workers=4, name="ParBuild 7")
        for f, inv in (("nowait", "NoDangling"), ("norest", "OkComplete|Ordered"), ("early", "Ordered")):
            c.model("ParBuild", env={"H": "5", "FAULT": f}, workers=2, name="ParBuild with fault " + f, expect=inv)
    fam = {"in": 4, "node": 6, "der": 2, "shift": 2, "out": 2}
    long = [i for i in long_insts() if i["d"] > 1]
    _, scen, lscen, fscen, _ = parallel(lambda: pool.build(c, recs), lambda: generate(c, insts, fam, 0, n, procs=3),
                                 lambda: generate(c, long, fam, 30000, 30000 + n // 6, procs=2),
                                 lambda: generate(c, flt, fam, 5000, 5000 + n // 2, procs=2), models)
    rng = random.Random(c.seed)
    progs = par.programs(rng, scen, fscen, n)
    progs += [dict(p, id=1000 + p["id"]) for p in par.programs(rng, lscen, fscen, 3 * len(lscen)) if p["id"] % 4 != 3]
    for p in progs:
        c.count("programs with %d clients" % len(p["cli"]))
    k = 8 if c.thorough else 1
    for r, a, b in ((recs[0], 40 * k, 40 * k), (recs[1], 40 * k, 40 * k), (recs[2], 3 * k, 0), (recs[3], 5 * k, 0)):
        if r.ok:
            par.explore(c, r, progs, a, b)
            c.log("explored:", r.name)
            if c.violations:
                return


def C20(c):
    insts = [inst(1, 3), inst(1, 2), inst(1, 0), inst(2, 1), inst(2, 3), inst(2, 4), inst(3, 1), inst(3, 2), inst(4, 1)]
    mt, cell, nd = "INTP_MULTITHREAD", "INTP_CELL_LAYOUT", "INTP_PERIODIC_NO_DUMMY_POINT"
    recs = [par.recorder(c, "c++14 cells, controlled", insts, "c++14", [cell], "sched"),
            par.recorder(c, "c++11 controlled", insts, "c++11", [], "sched"),
            par.recorder(c, "c++17 cells, pool, controlled", insts, "c++17", [mt, cell, nd], "sched"),
            par.recorder(c, "c++17 thread sanitizer", insts, "c++17", [nd], "tsan"),
            par.recorder(c, "c++20 cells, pool, thread sanitizer", insts, "c++20", [mt, cell], "tsan"),
            par.recorder(c, "c++11 cells, thread sanitizer", insts, "c++11", [cell], "tsan")]
    c.java()
    n = 300 if c.thorough else 54

    def models():
        c.model("SharedRead", env={"STEPS": "4" if c.thorough else "3"}, workers=2, name="SharedRead")
        for f, inv in (("memo", "AsAlone"), ("scratch", "AsAlone"), ("share", "Shared")):
            c.model("SharedRead", env={"STEPS": "3", "FAULT": f}, workers=2, name="SharedRead with fault " + f, expect=inv)
    fam = {"in": 6, "node": 4, "der": 6, "shift": 3, "out": 3, "proxy": 3, "data": 1, "info": 1}
    _, scen, _ = parallel(lambda: pool.build(c, recs), lambda: generate(c, insts, fam, 0, n, procs=3), models)
    progs = par.readers(random.Random(c.seed), scen, n)
    for p in progs:
        c.count("programs with %d clients" % len(p["cli"]))
    k = 8 if c.thorough else 1
    for r, a, b in ((recs[0], 30 * k, 5 * k), (recs[1], 30 * k, 5 * k), (recs[2], 15 * k, 10 * k), (recs[3], 3 * k, 0), (recs[4], 3 * k, 0), (recs[5], 3 * k, 0)):
        if r.ok:
            par.explore(c, r, progs, a, b, dense=1)
            c.log("explored:", r.name)
            if c.violations:
                return
