import itertools
from vlib import *

KIND = ["trie", "stable_trie", "detail::trie_base", "detail::stable_trie_base"]
def rnd_key(r, alpha, maxlen): return [r.choice(alpha) for _ in range(r.randint(1, maxlen))]

ALPH = {1: [[97, 98], [97, 98, 99], [0, 1, 254, 255], list(range(256)), [0, 255, 128]],
        2: [[97, 98], [0x6100, 0x61, 0x6161], [0, 1, 255, 256, 65535], [0x3042, 0x3044, 0x3046, 0x4E00]],
        4: [[97, 98], [0x61, 0x6100, 0x610000], [0, 255, 256, 65536, 0x10FFFF], [0x3042, 0x1F600, 0x1F601, 0x20000], [0x7FFFFFFF, 1, 0x01010101]]}

def history(r, n, probes=True, reloads=False, want="mut"):
    """one random operation history; keys are drawn from a small pool so that operations hit each other"""
    kind, w = r.choice([0, 1, 0, 1, 2, 3]), r.choice([1, 1, 2, 4])
    if kind > 1: w = 1
    alpha = r.choice(ALPH[w])
    pool = []
    for _ in range(r.randint(2, 14)):
        k = rnd_key(r, alpha, r.choice([1, 2, 3, 6]))
        pool.append(k)
        if r.random() < .4: pool.append(k + rnd_key(r, alpha, 2))
        if len(k) > 1 and r.random() < .3: pool.append(k[:-1])
    ops, human = [], []
    def val(): return r.choice([0, 1, 2, 5, 100, 2147483647, r.randrange(1 << 31)])
    for _ in range(n):
        x = r.random()
        k = r.choice(pool) if r.random() < .93 else rnd_key(r, alpha, 4)
        if x < .38: ops.append(f"1 {ints(k)} {val()}")
        elif x < .62: ops.append(f"{r.choice([2, 9])} {ints(k)}")
        elif x < .70: ops.append(f"3 {ints(k)} {val()}")
        elif x < .78: ops.append(f"4 {ints(k)} {val()}")
        elif x < .81:
            ks = [r.choice(pool) for _ in range(r.randint(0, 10))]
            y = r.random()
            if r.random() < .1: ks.append([])
            if y < .4: ks = [list(t) for t in sorted(set(map(tuple, ks)))]
            elif y < .7: ks = [list(t) for t in sorted(map(tuple, ks))]
            ops.append(f"5 {len(ks)} " + " ".join(ints(q) for q in ks))
        elif x < .82: ops.append("6")
        elif x < .83: ops.append("1 0 5")
        elif reloads: ops.append(f"8 {r.randrange(6)}")
        elif probes: ops.append(f"7 {ints(k if r.random() < .5 else k[:r.randint(0, len(k))] + [r.choice(alpha)])}")
        if reloads and r.random() < .25: ops.append(f"8 {r.randrange(6)}")
        if want == "probe" and r.random() < .6:
            q = r.choice(pool); q = q[:r.randint(0, len(q))] + ([r.choice(alpha)] if r.random() < .5 else [])
            ops.append(f"7 {ints(q)}")
    return {"line": f"{kind} {w} " + " ".join(ops), "kind": KIND[kind], "label_bytes": w, "ops": len(ops)}

def exhaustive(kind, w, a, b, depth, tail=""):
    """every history of insert/erase of the given length over a pool of related keys"""
    pool = [[a], [b], [a, b], [a, a], [a, b, a]]
    acts = [f"1 {ints(k)} {i + 3}" for i, k in enumerate(pool)] + [f"2 {ints(k)}" for k in pool]
    for seq in itertools.product(acts, repeat=depth):
        yield {"line": f"{kind} {w} " + " ".join(seq) + tail, "kind": kind, "label_bytes": w, "ops": depth}

def lists(kind, w, a, b, n):
    """every string list of up to n entries over related keys, assigned to a container that already holds something, then changed"""
    pool = [[], [a], [b], [a, b], [a, a], [b, a, b]]
    for m in range(n + 1):
        for ks in itertools.product(pool, repeat=m):
            yield {"line": f"{kind} {w} 1 {ints([b, b])} 9 5 {m} " + " ".join(ints(k) for k in ks) + f" 1 {ints([a, b])} 4 2 {ints([a])}", "kind": kind, "label_bytes": w, "list": ks}

def wide(r):
    """nodes with many children, long keys"""
    kind, w = r.choice([0, 1, 0, 1, 2, 3]), r.choice([1, 1, 2])
    if kind > 1: w = 1
    hi = {1: 256, 2: 65536}[w]
    stem = [r.randrange(hi) for _ in range(r.randint(0, 3))]
    ks = [stem + [r.randrange(hi)] + ([r.randrange(hi)] if r.random() < .3 else []) for _ in range(r.randint(20, 60))] + [stem + [r.randrange(hi) for _ in range(30)]]
    if r.random() < .5: ops = [f"5 {len(ks)} " + " ".join(ints(k) for k in ks)]
    else: ops = [f"1 {ints(k)} {i}" for i, k in enumerate(ks)]
    ops += [f"2 {ints(r.choice(ks))}" if r.random() < .7 else f"1 {ints(r.choice(ks) + [r.randrange(hi)])} 7" for _ in range(20)]
    return {"line": f"{kind} {w} " + " ".join(ops), "kind": KIND[kind], "label_bytes": w, "ops": len(ops)}

def bulk(kind, w, n, base, step, m, rest, form):
    d = 1
    while base ** d * 2 < n: d += 1
    return {"line": f"{kind} {w} 10 {n} {base} {d} {step} {m} {rest} {form}", "kind": KIND[kind], "label_bytes": w, "keys": n, "base": base, "reload": form}
def bulks(q, forms):
    """more keys than fit in 8 and 16 bits, in few and in many levels"""
    b = [(0, 1, 1000, 10, 7, 3, 1), (1, 1, 1000, 256, 1, 2, 0), (0, 2, 1000, 500, 7, 3, 2), (1, 4, 1000, 1000, 7, 5, 0), (2, 1, 600, 2, 7, 3, 1), (3, 1, 600, 3, 7, 3, 1),
         (0, 1, 36000, 10, 7919, 3, 1), (1, 1, 36000, 256, 1, 2, 1), (0, 2, 34000, 65535, 1, 5, 2), (1, 2, 9000, 300, 7919, 4, 3), (0, 4, 9000, 70000, 7919, 3, 0), (2, 1, 70000, 256, 1, 3, 1), (3, 1, 34000, 200, 7919, 7, 6)]
    if not q: b += [(k, w, n, base, st, m, m - 1) for k in (0, 1) for w in (1, 2, 4) for n, base, st in ((70000, 16, 7919), (140000, 255, 7919)) for m in (2, 3)]
    return [bulk(*x, forms[i % len(forms)]) for i, x in enumerate(b)]

def corrupt(ev, r):
    if ev[-1].get("op") == "bulk": ev[-1][r.choice(["keys", "vals", "has"])][len(ev[-1]["keys"]) // 2] += 1; return True
    es = [e for e in ev if e.get("enum")]
    pr = [e for e in ev if e.get("op") == "probe"]
    if pr and r.random() < .5:
        e = r.choice(pr); f = r.choice(["contains", "at", "consumed", "iskey", "steps"])
        e[f] = (not e[f]) if isinstance(e[f], bool) else e[f] + 1
        return True
    if not es: return False
    e = r.choice(es); m = r.randrange(3)
    if m == 0: e["size"] += 1
    elif m == 1: r.choice(e["enum"])["v"] ^= 1
    else: e["enum"].pop()
    return True

ASSUMPTIONS = {p: ["values are below 2^31 as the documentation requires", "iterators of a container are not used across mutations",
                   "gcc 13 build with assertions on"] for p in ("C01", "C02", "C03")}

def C01(ctx):
    exe = build("trie")
    check_model(ctx, "Trie", workers=NCPU)
    cases = [history(ctx.rng, ctx.rng.randint(4, 40), probes=True) for _ in range(1400 if ctx.quick else 12000)]
    for kind, w in ((0, 1), (1, 1), (0, 2), (1, 4), (2, 1), (3, 1)):
        cases += list(exhaustive(kind, w, 97, 98, 3 if ctx.quick else 4))
    for kind, w, a, b in ((0, 1, 97, 98), (1, 1, 0, 255), (0, 4, 0x61, 0x6100), (2, 1, 97, 98), (3, 1, 255, 0)):
        cases += list(lists(kind, w, a, b, 3 if ctx.quick else 4))
    cases += [wide(ctx.rng) for _ in range(60 if ctx.quick else 600)]
    cases += bulks(ctx.quick, [0, 3])
    ctx.extra["rule"] = "random histories of 4..40 operations over pools of related keys, plus every insert/erase history of length 3 (quick) or 4 (thorough) over 5 related keys, every string list of up to 3 (4) entries assigned over existing contents, and histories on nodes with up to 60 children"
    conformance(ctx, exe, "TrieTrace", cases, corrupt=corrupt)

def C02(ctx):
    exe = build("trie")
    check_model(ctx, "Trie")
    cases = [history(ctx.rng, ctx.rng.randint(4, 30), want="probe") for _ in range(1600 if ctx.quick else 15000)]
    # every probe up to length 3 over the alphabet, on every key set of a small universe
    for kind, w, a, b in ((0, 1, 97, 98), (1, 1, 0, 255), (0, 2, 0x6100, 0x61), (1, 4, 0x61, 0x610000), (2, 1, 0, 255), (3, 1, 97, 98)):
        uni = [[a], [b], [a, b], [b, a], [a, b, b]]
        probes = " ".join(f"7 {ints(p)}" for n in range(0, 4) for p in itertools.product([a, b], repeat=n))
        for bits in range(1 << len(uni)):
            ks = [uni[i] for i in range(len(uni)) if bits >> i & 1]
            cases.append({"line": f"{kind} {w} " + " ".join(f"1 {ints(k)} 1" for k in ks) + " " + probes, "keys": ks})
    conformance(ctx, exe, "TrieTrace", cases, corrupt=corrupt)

def C03(ctx):
    exe = build("trie")
    check_model(ctx, "Trie")
    cases = [history(ctx.rng, ctx.rng.randint(4, 30), reloads=True) for _ in range(1500 if ctx.quick else 15000)] + bulks(ctx.quick, [1, 2])
    conformance(ctx, exe, "TrieTrace", cases, corrupt=corrupt)
    import g_atom
    g_atom.C03_atoms(ctx)
