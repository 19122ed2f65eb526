import itertools
from vlib import *

def history(r, n, walks=.1):
    ops = []
    for _ in range(n):
        x = r.random(); a, b = r.randrange(1000), r.randrange(1000)
        op = 1 if x < .42 else 2 if x < .52 else 3 if x < .72 else 4 if x < .84 else 8 if x < .88 else 10 if x < .92 else 7 if x < .94 else 6 if x < .945 else 5 if x < .95 else 1
        ops.append(f"{op} {a} {b}")
        if r.random() < walks: ops.append(f"9 {r.randrange(1000)} 0")
    return {"line": " ".join(ops), "ops": len(ops)}

def shapes(n):
    """every history of n insertions (every position), as wire operations"""
    def rec(k, size):
        if k == 0: yield []; return
        for p in range(2 * size + 1):
            for rest in rec(k - 1, size + 1): yield [f"1 {p} {p}"] + rest
    return list(rec(n, 0))

def every_edit(n):
    """every forest of n nodes, then every copy / move / erase at every position, then one insertion that may reuse freed slots"""
    out = []
    for s in shapes(n):
        base = " ".join(s)
        for x in range(2 * n + 1):
            for y in range(n):
                for op in (2, 3): out.append({"line": f"{base} {op} {x} {y} 1 0 0", "edit": op})
        for x in range(n): out.append({"line": f"{base} 4 {x} 0 1 {x} 0 1 0 0", "edit": 4})
    return out

def bulk(n, b, x, y, m): return {"line": f"11 {n} {b} {x} {y} {m}", "nodes": n, "fanout": b}
def bulks(q):
    """more nodes, children and levels than fit in 8 and 16 bits"""
    o = [bulk(300, 1, 150, 200, 300), bulk(300, 300, 150, 200, 300), bulk(1000, 2, 1, 400, 600), bulk(1000, 7, 30, 3, 200), bulk(3000, 1, 2, 1500, 10), bulk(70000, 70000, 66000, 40000, 40), bulk(70000, 10, 3, 41, 3000)]
    return o if q else o + [bulk(6000, 1, 3000, 10, 100), bulk(140000, 3, 17, 5, 5000), bulk(140000, 1000, 100, 7, 5000)]

def corrupt(ev, r):
    if ev[-1].get("op") == "bulk": o = ev[-1][r.choice(["built", "moved", "erased", "added", "copied"])]; k = r.choice(["pre", "lev", "back"]); i = r.randrange(len(o[k]) - 1); o[k][i], o[k][i + 1] = o[k][i + 1], o[k][i]; return True
    es = [e for e in ev if e.get("forest") or e.get("op") == "walk"]
    if not es: return False
    e = r.choice(es)
    if e["op"] == "walk": k = r.choice(["pre", "lev"]); e[k].append(7)
    else:
        m = r.randrange(4)
        if m == 0: e["forest"][-1]["v"] += 1
        elif m == 1: e["back"].pop()
        elif m == 2: e["size"] += 1
        else: e["ret"] = e["ret"] + [1]
    return True

ASSUMPTIONS = {p: ["iterators are re-fetched after every mutation, as the documentation requires"] for p in ("C05", "C06")}

def C05(ctx):
    exe = build("tree")
    check_model(ctx, "ForestMC")
    cases = every_edit(3) + [history(ctx.rng, ctx.rng.randint(4, 30)) for _ in range(800 if ctx.quick else 8000)]
    if not ctx.quick: cases += every_edit(4)
    cases += bulks(ctx.quick)
    ctx.extra["rule"] = "every forest of 3 (thorough: 4) nodes built in every order, then every single copy/move/erase at every position followed by insertions; plus random histories of 4..30 edits, and trees of up to 70 000 (thorough: 140 000) nodes, deep and wide"
    conformance(ctx, exe, "ForestTrace", cases, corrupt=corrupt)

def C06(ctx):
    exe = build("tree")
    check_model(ctx, "ForestMC")
    cases = [{"line": " ".join(s) + " " + " ".join(f"9 {i} 0" for i in range(n)), "nodes": n} for n in range(1, 5 if ctx.quick else 6) for s in shapes(n)]
    cases += [history(ctx.rng, ctx.rng.randint(4, 40), walks=.5) for _ in range(800 if ctx.quick else 8000)] + bulks(ctx.quick)
    conformance(ctx, exe, "ForestTrace", cases, corrupt=corrupt)
    import g_tagtree
    g_tagtree.C06_tags(ctx)
