from vlib import *
import g_tree

def history(r, n, walks=.05):
    ops = []
    for _ in range(n):
        x = r.random(); a, b = r.randrange(1000), r.randrange(1000)
        op = 1 if x < .5 else 3 if x < .76 else 4 if x < .93 else 7 if x < .97 else 6 if x < .975 else 1
        ops.append(f"{op} {a} {b}")
        if r.random() < .15: ops.append(f"10 {r.randrange(1000)} {r.randrange(3)}")
        if r.random() < walks: ops.append(f"9 {r.randrange(1000)} 0")
    return {"line": " ".join(ops), "ops": len(ops)}

def every_edit(n):
    out = []
    for s in g_tree.shapes(n):
        ops = [o.split() for o in s]
        base = " ".join(f"1 {o[1]} 3" for o in ops)                       # all elements, so that every shape exists
        mixed = " ".join(f"1 {o[1]} {(i * 7 + int(o[1])) % 4}" for i, o in enumerate(ops))
        for b in (base, mixed):
            for x in range(2 * n + 1):
                for y in range(n): out.append({"line": f"{b} 3 {x} {y} 1 0 0", "edit": "move"})
            for x in range(n): out.append({"line": f"{b} 4 {x} 0 1 {x} 0 1 0 3", "edit": "erase"})
    return out

def corrupt(ev, r):
    es = [e for e in ev if e.get("forest") or e.get("op") in ("walk", "write")]
    if not es: return False
    e = r.choice(es)
    if e["op"] == "write": e["chars"][r.randrange(len(e["chars"]))] += 1
    elif e["op"] == "walk": e[r.choice(["pre", "lev", "rpre", "rlev"])].append(7)
    else:
        m = r.randrange(4)
        if m == 0: e["forest"][-1]["v"] += 4
        elif m == 1: e["fwd"].pop()
        elif m == 2: e["bwd"][0] += 1
        else: e["ret"] = e["ret"] + [1]
    return True

ASSUMPTIONS = {"C07": ["a node is not moved into its own subtree", "text nodes are not empty", "iterators are re-fetched after every mutation"]}

def C07(ctx):
    exe = build("tagtree", ["atom_tbl", "encoding", "idx_ptr", "idx_cp"])
    check_model(ctx, "ForestMC")
    cases = every_edit(3) + [history(ctx.rng, ctx.rng.randint(4, 30)) for _ in range(800 if ctx.quick else 8000)]
    if not ctx.quick: cases += every_edit(4)
    conformance(ctx, exe, "ForestTrace", cases, corrupt=corrupt, label="ForestTrace(tag tree)")

def C06_tags(ctx):
    exe = build("tagtree", ["atom_tbl", "encoding", "idx_ptr", "idx_cp"])
    cases = [history(ctx.rng, ctx.rng.randint(4, 30), walks=.5) for _ in range(400 if ctx.quick else 4000)]
    conformance(ctx, exe, "ForestTrace", cases, corrupt=corrupt, label="ForestTrace(tag tree)")
