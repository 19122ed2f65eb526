from vlib import *
ASSUMPTIONS = {"C08": ["operations stay within capacity; a moved-from vector is not read before it is assigned"]}

def corrupt(ev, r):
    e = r.choice(ev)
    o = e[r.choice("ab")]
    m = r.randrange(5)
    if m == 0: o["fwd"][r.randrange(6)].append(1)
    elif m == 1: o["size"] += 1
    elif m == 2: o["bwd"][r.randrange(5)].insert(0, 3)
    elif m == 3: e["ret"] += 1
    else: e["rel"][r.randrange(6)] ^= True
    return True

def C08(ctx):
    exe = build("svec")
    check_model(ctx, "StaticVectorMC")
    r = ctx.rng
    cases = []
    for kind in range(5):
        cap = (4, 4, 9, 7, 1)[kind]
        # every operation at every position of every length, from distinct elements
        for n in range(cap + 1):
            base = f"{kind} 6 0 0 {min(n, 4)} 1 " + " ".join(f"17 0 0 0 {i}" for i in range(4, n)) + " 6 1 0 2 2"
            for op in range(1, 29):
                for p in range(n + 1 if 9 <= op <= 16 or op == 28 else cap + 1 if op in (1, 2, 5, 21, 22) else 1):
                    for b in range(5 if op in (3, 4, 6, 7, 8, 11, 12, 13, 14, 16, 19, 28) else 1):
                        if ctx.quick and r.random() < .5 and kind in (2, 3): continue
                        cases.append({"line": f"{base} {op} 0 {p} {b} {b + 1 if op == 14 else p + b}", "op": op})
    for _ in range(500 if ctx.quick else 6000):
        k = r.randrange(4)
        cases.append({"line": f"{k} " + " ".join(f"{r.choice([r.randint(1, 28), r.choice([9, 11, 12, 14, 15, 16, 17, 23, 28])])} {r.randrange(2)} {r.randrange(60)} {r.randrange(60)} {r.randrange(60)}" for _ in range(r.randint(3, 25))), "random": 1})
    ctx.extra["rule"] = "every operation at every position of vectors of every length (capacities 1, 4, 7, 9), plus random histories of 3..25 operations on two vectors; element types int and std::string"
    conformance(ctx, exe, "StaticVectorTrace", cases, corrupt=corrupt)
