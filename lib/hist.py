"""Histories: tours through the transition graph of Hist, made concrete."""
import json, random
from collections import defaultdict, deque
from vf import *
from session import *


def graph(ctx, nt, nf, np_):
    r = ctx.model("Hist", env={"NT": str(nt), "NF": str(nf), "NP": str(np_), "EDGES": "1"}, workers=1,
                  name="Hist NT=%d NF=%d NP=%d" % (nt, nf, np_))
    g = defaultdict(dict)
    for l in r.out.splitlines():
        if l.startswith('"EDGE '):
            a, o, b = json.loads(json.loads(l)[5:])
            a, b = json.dumps(a), json.dumps(b)
            g[a][(json.dumps(o, sort_keys=True), b)] = o
    return g


def tours(g, rng, steps, length):
    """Walks from the initial state that prefer transitions not yet taken."""
    init = next(a for a in g if json.loads(a)[0] == [0] * len(json.loads(a)[0])
                and not any(json.loads(a)[1]) and not any(json.loads(a)[3]))
    left = {a: set(es) for a, es in g.items()}
    total = sum(len(v) for v in left.values())
    out, taken = [], 0

    def next_unseen(a):       # shortest path to a state with an untaken edge
        seen, q = {a: None}, deque([a])
        while q:
            x = q.popleft()
            if left[x]:
                path = []
                while seen[x] is not None:
                    y, e = seen[x]
                    path.append(e)
                    x = y
                return path[::-1]
            es = list(g[x])
            rng.shuffle(es)
            for e in es:
                if e[1] not in seen:
                    seen[e[1]] = (x, e)
                    q.append(e[1])
        return None

    while taken < steps and any(left.values()):
        a, walk = init, []
        while len(walk) < length:
            if left[a]:
                es = sorted(left[a])
                e = es[rng.randrange(len(es))]
                path = [e]
            else:
                path = next_unseen(a)
                if not path:
                    break
            for e in path:
                left[a].discard(e)
                walk.append((g[a][e], e[1]))
                a = e[1]
                taken += 1
        out.append(walk)
    return out, total - sum(len(v) for v in left.values()), total


def concrete(walk, sid, key, meshes, rng):
    """meshes: {1: pool, 2: pool}, pool = dict(ax, sets, q, px)"""
    ops, fdata, fmesh, tmesh, pmesh = [], {}, {}, {}, {}
    for o, dest in walk:
        k = o["k"]
        view = json.loads(dest)
        if k == "T":
            tmesh[o["t"]] = o["m"]
            ops.append({"op": "T", "t": o["t"], "ax": meshes[o["m"]]["ax"]})
        elif k in ("TCopy", "TMove", "TAssign", "TMoveAssign"):
            tmesh[o["t"]] = tmesh[o["s"]]
            ops.append({"op": k, "t": o["t"], "s": o["s"]})
            if k in ("TMove", "TMoveAssign"):
                tmesh[o["s"]] = 0
        elif k == "TDel":
            tmesh.pop(o["t"], None)
            ops.append({"op": "TDel", "t": o["t"]})
        elif k == "F":
            m, f = tmesh[o["t"]], o["f"]
            ds = list(range(len(meshes[m]["sets"])))
            share = [p for p in view[2] if f in p]
            if share:
                g2 = [x for x in share[0] if x != f][0]
                d = fdata[g2]
            else:
                d = rng.choice([x for x in ds if x not in [fdata.get(h) for h in fmesh if h != f and fmesh[h] == m]])
            fdata[f], fmesh[f] = d, m
            c, data = meshes[m]["sets"][d]
            ops.append({"op": "F", "f": f, "t": o["t"], "how": o["how"], "c": c, "data": data})
            if o["how"] == "move":
                tmesh[o["t"]] = 0
        elif k == "FDefault":
            fmesh[o["f"]] = 0
            ops.append({"op": k, "f": o["f"]})
        elif k in ("FCopy", "FMove", "FAssign", "FMoveAssign"):
            fdata[o["f"]], fmesh[o["f"]] = fdata[o["g"]], fmesh[o["g"]]
            ops.append({"op": k, "f": o["f"], "g": o["g"]})
            if k in ("FMove", "FMoveAssign"):
                fmesh[o["g"]] = 0
        elif k == "FDel":
            fmesh.pop(o["f"], None)
            ops.append({"op": "FDel", "f": o["f"]})
        elif k == "P":
            m = tmesh[o["t"]]
            pmesh[o["p"]] = m
            x = rng.choice(meshes[m]["px"])
            ops.append({"op": "P", "p": o["p"], "t": o["t"], "x": x, "form": rng.randrange(2)})
        # observe every live function, and proxies on functions of the same mesh
        for f, m in sorted(fmesh.items()):
            if m:
                qs = rng.sample(meshes[m]["q"], min(2, len(meshes[m]["q"])))
                ops.append({"op": "Q", "f": f, "q": qs})
                if rng.random() < .1:
                    ops.append({"op": "Info", "f": f})
                for p, pm in pmesh.items():
                    if pm == m:
                        ops.append({"op": "PQ", "p": p, "f": f})
    return {"id": sid, "key": key, "ops": ops}


def pools(ctx, insts, per=2, datasets=7):
    """Per instantiation a list of meshes with data sets, queries, proxies."""
    fam = {"in": 3, "node": 2, "der": 3, "shift": 2, "out": 2, "proxy": 4, "data": datasets}
    scen = generate(ctx, insts, fam, 0, per * len(insts), procs=4)
    res = {}
    for s in scen:
        ax = s["ops"][0]["ax"]
        sets = [(o["c"], o["data"]) for o in s["ops"] if o["op"] == "F"]
        q = next(o["q"] for o in s["ops"] if o["op"] == "Q")
        px = [o["x"] for o in s["ops"] if o["op"] == "P"]
        res.setdefault(s["key"], []).append({"ax": ax, "sets": sets, "q": q, "px": px})
    return res
