"""Mesh and band matrix sessions (C13, C12)."""
import json, os, re
from vf import *
import session
from session import parallel


class Simple:
    """A single-file recorder."""

    def __init__(self, ctx, name, src, cxx="g++", std="c++17", flags=("-O1",), macros=(), extra=(), libs=("-pthread",)):
        self.ctx, self.name, self.cell = ctx, name, False
        self.dir = ctx.fresh("rec")
        os.makedirs(self.dir)
        self.bin = os.path.join(self.dir, "rec")
        self.cmd = [cxx, "-std=" + std, "-w"] + list(flags) + ["-D" + m for m in macros] + list(extra) + \
                   ["-I" + HARNESS, "-I" + INC, os.path.join(HARNESS, src), "-o", self.bin] + list(libs)
        self.ok, self.err = False, ""

    def flags(self):
        return " ".join(self.cmd)


def build(ctx, recs):
    res = ctx.compile_all([(r.name, r.cmd) for r in recs])
    for r in recs:
        r.ok = res[r.name].rc == 0
        if not r.ok:
            r.err = res[r.name].out
            ctx.skipped.append({"config": r.name, "reason": "does not build", "message": r.err[:400]})
            ctx.log("config", r.name, "does not build:", r.err[:400])
    if not any(r.ok for r in recs):
        raise NoBuild("no configuration builds: " + gist(recs[0].err))
    ctx.log("built %d recorders" % sum(r.ok for r in recs))


def mesh_script(sc, cell=False):
    L = ["S %d %s" % (sc["id"], sc["key"])]
    j = lambda v: " ".join(map(str, v))
    for o in sc["ops"]:
        k, m = o["op"], o["m"]
        if k == "New":
            L.append("New %d %d %s %d %s" % (m, o["how"], j(o["dims"]), len(o["vals"]), j(o["vals"])))
        elif k == "Set":
            L.append("Set %d %s %d %d" % (m, j(o["i"]), o["v"], o["path"]))
        elif k == "SetLine":
            L.append("SetLine %d %d %s %d %s %d" % (m, o["d"], j(o["i"]), len(o["vals"]), j(o["vals"]), o["path"]))
        elif k == "All":
            L.append("All %d %d" % (m, o["path"]))
        elif k in ("Line", "Walk"):
            L.append("%s %d %d %s %d" % (k, m, o["d"], j(o["i"]), o["path"]))
        elif k == "Dim":
            L.append("Dim %d %d %s %d %s" % (m, o["how"], j(o["dims"]), len(o["at"]), " ".join(j(a) for a in o["at"])))
        elif k == "Map":
            L.append("Map %d" % m)
        elif k == "Resize":
            L.append("Resize %d %s" % (m, j(o["dims"])))
        elif k == "Copy":
            L.append("Copy %d %d %d" % (m, o["s"], o["path"]))
        elif k == "Move":
            L.append("Move %d %d" % (m, o["s"]))
        else:
            raise CheckError("unknown op " + k)
    return L


def mesh_describe(sc):
    return {"id": sc["id"], "dimensions": sc["key"], "shape": sc["ops"][0]["dims"], "ops": [o["op"] for o in sc["ops"]][:30]}


def band_script(sc, cell=False):
    L = ["S %d %s" % (sc["id"], sc["key"])]
    f = lambda v: "%d %s" % (len(v), " ".join(hexf(x) for x in v))
    for o in sc["ops"]:
        k = o["op"]
        if k == "MNew":
            L.append("MNew %d %d %d %d %d" % (o["m"], o["n"], o["p"], o["q"], o["x"]))
        elif k == "MFill":
            L.append("MFill %d %d %s" % (o["m"], o["order"], f(o["vals"])))
        elif k == "MSet":
            L.append("MSet %d %d %d %s" % (o["m"], o["i"], o["j"], hexf(o["v"])))
        elif k == "MDump":
            L.append("MDump %d %d" % (o["m"], o["path"]))
        elif k == "MMul":
            L.append("MMul %d %s" % (o["m"], f(o["x"])))
        elif k in ("MCopy", "MMove"):
            L.append("%s %d %d" % (k, o["m"], o["s"]))
        elif k == "LU":
            L.append("LU %d %d %s %d" % (o["l"], o["m"], o["how"], o["growth"]))
        elif k in ("LUCopy", "LUMove"):
            L.append("%s %d %d" % (k, o["l"], o["s"]))
        elif k == "Solve":
            L.append("Solve %d %s %s %s" % (o["l"], o["form"], f(o["b"]), f(o["b2"])))
        else:
            raise CheckError("unknown op " + k)
    return L


def band_describe(sc):
    o = sc["ops"][0]
    return {"id": sc["id"], "allocator": sc["key"], "n": o["n"], "lower": o["p"], "upper": o["q"], "extended": o["x"],
            "ops": [o["op"] + o.get("form", o.get("how", "")) for o in sc["ops"]]}


def alloc_script(sc, cell=False):
    L = ["S %d %s" % (sc["id"], sc["key"])]
    f = lambda v: ("%d %s" % (len(v), " ".join(map(str, v)))).strip()
    for o in sc["ops"]:
        k = o["op"]
        if k == "Alloc":
            L.append("Alloc %d %d %s %d" % (o["b"], o["n"], f(o["vals"]), o["path"]))
        elif k == "Free":
            L.append("Free %d" % o["b"])
        elif k == "Poke":
            L.append("Poke %d %d %d" % (o["b"], o["i"], o["v"]))
        elif k == "Huge":
            L.append("Huge %d" % o["path"])
        elif k == "VNew":
            L.append("VNew %d %s" % (o["v"], f(o["vals"])))
        elif k == "VResize":
            L.append("VResize %d %d %d" % (o["v"], o["n"], o["x"]))
        elif k == "VPush":
            L.append("VPush %d %d" % (o["v"], o["x"]))
        elif k == "VCopy":
            L.append("VCopy %d %d %d" % (o["v"], o["s"], o["path"]))
        elif k == "VSwap":
            L.append("VSwap %d %d" % (o["v"], o["s"]))
        elif k == "SPush":
            L.append("SPush %s" % f(o["vals"]))
        elif k in ("SPop", "Static"):
            L.append(k)
        elif k == "Construct":
            L.append("Construct %s %d" % (f(o["vals"]), o["path"]))
        elif k == "Dispatch":
            L.append("Dispatch %d %s" % (o["n"], f(o["vals"])))
        elif k == "Range":
            L.append("Range %s" % f(o["vals"]))
        else:
            raise CheckError("unknown op " + k)
    return L


def alloc_describe(sc):
    return {"id": sc["id"], "alignment and element": sc["key"], "ops": [o["op"] for o in sc["ops"]][:40]}
