"""Concurrent construction: sessions of several clients executed at once under
controlled schedules; recorded events checked by TLC against Session."""
import copy, json, os, re
from vf import *
from session import *
import session
import pool


def recorder(ctx, name, insts, std, macros, mode, ntu=4):
    d = ctx.fresh("parsrc")
    os.makedirs(d)
    groups = [insts[k::ntu] for k in range(ntu)]
    src = [os.path.join(HARNESS, "rec_par.cpp")]
    for k, g in enumerate(groups):
        if not g:
            continue
        p = os.path.join(d, "tu%d.cpp" % k)
        with open(p, "w") as f:
            f.write('#include "rec_sess.hpp"\n')
            for i in g:
                f.write('REC_INST("%s", %s, %d, %d, %s)\n' % (i["key"], i["T"], i["d"], i["o"], i["U"]))
        src.append(p)
    r = pool.Rec(ctx, name, src, std, macros=macros, mode=mode)
    r.cell = "INTP_CELL_LAYOUT" in macros
    return r


def renumber(ops, off, factor=1):
    """The same session on slots of its own, all values times a power of two."""
    def mul(v):
        return [[("%s * %d" % (x, factor)) if 0 else scale(x, factor) for x in c] for c in v]
    out = []
    for o in ops:
        o = copy.deepcopy(o)
        for k in ("t", "f", "g", "s", "p"):
            if k in o and isinstance(o[k], int) and not (k == "p" and o["op"] not in ("P", "PQ")):
                o[k] += off
        if o["op"] == "F" and factor != 1:
            o["data"] = mul(o["data"])
            if o.get("c"):
                o["c"] = mul(o["c"])
        out.append(o)
    return out


def scale(x, f):
    if isinstance(x, int):
        return x * f
    if ":" in x:
        m, e = x.split(":")
        return "%d:%s" % (int(m) * f, e)
    if "/" in x:
        a, b = x.split("/")
        return "%d/%s" % (int(a) * f, b)
    return str(int(x) * f)


def vary(ops, rng, fault=False):
    """Different ways of building; in between, constructions that fail."""
    out = []
    for o in ops:
        if o["op"] != "F":
            out.append(o)
            continue
        how = rng.choice(["new", "into", "direct", "mesh_rvalue"])
        o = dict(o, how=how)
        pre = [{"op": "FDefault", "f": o["f"]}] if how == "into" else []
        if fault:
            for _ in range(rng.choice([1, 1, 2])):
                b = dict(o, f=o["f"] + 50)
                out += ([{"op": "FDefault", "f": b["f"]}] if how == "into" else []) + [{"op": "A", "k": rng.randrange(0, 64)}, b]
        out += pre + [o]
    return out


def may_fail(o):
    """Operations that may run out of memory with a defined outcome."""
    k = o["op"]
    return (k in ("T", "TCopy", "FCopy", "FDefault", "P", "PQ", "Q") or k == "F" and o["how"] in ("new", "into", "mesh_rvalue", "direct") or
            k == "TAssign" and o["t"] != o["s"] or k == "FAssign" and o["f"] != o["g"])


def programs(rng, scen, fscen, n):
    """scen: sessions on plain values, fscen: on values that can throw"""
    P = []
    for k in range(n):
        kind = k % 4
        a = scen[k % len(scen)]
        p = {"id": k, "pro": (a["key"], []), "cli": [], "epi": []}
        if kind == 0:        # one client
            p["cli"] = [(a["key"], vary(renumber(a["ops"], 0), rng))]
        elif kind == 1:      # several clients with sessions of their own
            for c in range(rng.choice([2, 2, 3])):
                b = scen[(k * 7 + c * 5) % len(scen)]
                p["cli"].append((b["key"], vary(renumber(b["ops"], 100 * c), rng)))
        elif kind == 2:      # several clients sharing a template
            p["pro"] = (a["key"], [o for o in a["ops"] if o["op"] == "T"])
            rest = [o for o in a["ops"] if o["op"] != "T"]
            for c in range(rng.choice([2, 3])):
                q = vary(renumber(rest, 100 * c, (1, 2, -4)[c]), rng)
                for o in q:
                    if o["op"] in ("F", "P"):
                        o["t"] -= 100 * c
                p["cli"].append((a["key"], q))
        else:                # constructions that fail, beside others that do not
            b = fscen[(k // 4) % len(fscen)]
            p["pro"] = (b["key"], [])
            p["cli"].append((b["key"], vary(renumber(b["ops"], 0), rng, fault=True)))
            if rng.random() < 0.6:
                p["cli"].append((a["key"], vary(renumber(a["ops"], 100), rng)))
        P.append(p)
    return P


def readers(rng, scen, n):
    """One prologue builds templates, functions and proxies; several clients
    read, copy and interpolate with them at once."""
    P = []
    for k in range(n):
        a = scen[k % len(scen)]
        pro = [o for o in a["ops"] if o["op"] in ("T", "F", "P")]
        look = []
        for o in a["ops"]:
            if o["op"] == "Q":
                look += [dict(o, q=[q]) for q in o["q"]]
            elif o["op"] in ("PQ", "Info"):
                look.append(o)
        fills = [o for o in pro if o["op"] == "F"]
        px = [o for o in pro if o["op"] == "P"]
        p = {"id": k, "pro": (a["key"], pro), "cli": [], "epi": rng.sample(look, min(6, len(look)))}
        for c in range(rng.choice([2, 2, 3])):
            off = 100 * (c + 1)
            ops = rng.sample(look, min(len(look), rng.choice([4, 8, 12])))
            if rng.random() < 0.5:       # the same calls by all clients
                ops = sorted(ops, key=lambda o: json.dumps(o, sort_keys=True))
            extra = []
            for _ in range(rng.choice([0, 1, 2])):
                w = rng.choice(["copy", "fill", "proxy", "templ"])
                f = rng.choice(fills)
                q = [o for o in look if o["op"] == "Q" and o["f"] == f["f"]][:2]
                if w == "copy":
                    extra += [{"op": "FCopy", "f": off + f["f"], "g": f["f"]}] + [dict(o, f=off + f["f"]) for o in q]
                    if rng.random() < 0.5:
                        extra.append({"op": "FDel", "f": off + f["f"]})
                elif w == "fill":
                    g = renumber([f], 0, (2, -4, 8)[c])[0]
                    extra += [dict(g, f=off + 20 + f["f"], how=rng.choice(["new", "mesh_rvalue"]))] + [dict(o, f=off + 20 + f["f"]) for o in q]
                elif w == "templ":
                    extra += [{"op": "TCopy", "t": off, "s": f["t"]}]
                elif px:
                    o = rng.choice(px)
                    extra += [dict(o, p=off + o["p"]), {"op": "PQ", "p": off + o["p"], "f": f["f"]}]
            at = rng.randrange(len(ops) + 1)
            p["cli"].append((a["key"], ops[:at] + extra + ops[at:]))
        P.append(p)
    return P


def lines_of(ops, cell):
    L = []
    for o in ops:
        if o["op"] == "A":
            L.append("A %d" % o["k"])
        else:
            L += session.script_of({"id": 0, "key": "x", "ops": [o]}, cell)[1:]
    return L


def script(p, cell):
    L = ["S %d" % p["id"], "PRO " + p["pro"][0]] + lines_of(p["pro"][1], cell)
    for key, ops in p["cli"]:
        L += ["CLI " + key] + lines_of(ops, cell)
    return L + ["EPI"] + lines_of(p["epi"], cell)


def describe(p):
    return {"id": p["id"], "clients": [{"instantiation": k, "ops": [o["op"] + ("(" + o["how"] + ")" if o["op"] == "F" else "") for o in ops][:12]}
                                       for k, ops in p["cli"]]}


def explore(ctx, rec, progs, nrand, npct, procs=8, patience=20, timeout=700, dense=0):
    groups = [g for g in (progs[k::procs] for k in range(procs)) if g]

    def one(g):
        s, t = ctx.fresh("script"), ctx.fresh("trace")
        with open(s, "w") as f:
            f.write("\n".join(l for p in g for l in script(p, rec.cell)) + "\n")
        r = run([rec.bin, s, t] + [str(v) for v in (nrand, npct, ctx.seed, patience, dense)], env=SAN_ENV, timeout=timeout)
        m = re.search(r"STATS runs=(\d+) uncontrolled=(\d+) complete=(\d+) decisions=(\d+) kinds=(\d+)", r.out)
        if r.timeout or not m:
            raise CheckError("recorder %s gave no answer: rc=%d %s" % (rec.name, r.rc, r.out[-800:]))
        runs, unc, _, dec, kinds = map(int, m.groups())
        ctx.count("executions (%s)" % rec.name, runs)
        ctx.count("scheduling decisions", dec)
        if unc:
            ctx.count("executions given up (blocking not controlled)", unc)
        text = open(t).read()
        ctx.count("constructions ended by an exception", text.count('"fired":true'))
        # an answer already accepted (in another configuration) need not be checked again
        h = hashlib.sha256(text.encode()).hexdigest()
        ok, c, n, why = (True, 0, text.count("\n"), "") if h in ctx.accepted else validate(ctx, t)
        if ok:
            ctx.accepted.add(h)
        race = re.search(r"WARNING: ThreadSanitizer: (.*)", r.out) or re.search(r"ERROR: (AddressSanitizer.*)", r.out) \
            or re.search(r"(runtime error: .*)", r.out)
        bad = None
        if not ok or race:
            ev = text.split("\n")
            start = max([i for i in range(0, c + 1) if i < len(ev) and '"e":"Reset"' in ev[i]] or [0])
            pid = json.loads(ev[start]).get("id")
            sc = next((p for p in g if p["id"] == pid), g[0])
            bad = ("config %s [%s]: %s %s\nprogram %s" % (rec.name, rec.text, race.group(0) if race else "", why if not ok else "", json.dumps(describe(sc))),
                   {"trace.ndjson": "\n".join(ev[start:c + 1]) + "\n", "script.txt": "\n".join(script(sc, rec.cell)) + "\n",
                    "output.txt": r.out[-20000:]})
        os.unlink(s)
        os.unlink(t)
        return bad, kinds, n

    with ThreadPoolExecutor(len(groups)) as ex:
        res = list(ex.map(one, groups))
    for bad, k, n in res:
        if bad:
            ctx.violation(*bad)
        else:
            ctx.traces += k
            ctx.events += n
    for p in progs[1:3]:
        if len(ctx.samples) < 4:
            ctx.samples.append(dict(describe(p), config=rec.name))
