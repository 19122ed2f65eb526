import itertools
from vlib import *
from g_trie import ALPH, rnd_key

def history(r, n, reloads=.05):
    w = r.choice([1, 2, 4, 4])
    alpha = r.choice(ALPH[w])
    pool = [[]]
    for _ in range(r.randint(2, 12)):
        k = rnd_key(r, alpha, r.choice([1, 2, 3, 6])); pool.append(k)
        if r.random() < .4: pool.append(k + rnd_key(r, alpha, 2))
        if len(k) > 1 and r.random() < .3: pool.append(k[:-1])
    pool = [list(t) for t in dict.fromkeys(map(tuple, pool))]
    ops = []
    for _ in range(n):
        x = r.random(); i = r.randrange(1, len(pool)) if r.random() < .97 else 0
        if r.random() < reloads: ops.append(f"6 {r.randrange(3)}")
        if x < .5: ops.append(f"1 {i}")
        elif x < .65: ops.append(f"2 {i}")
        elif x < .8: ops.append(f"3 {i}")
        elif x < .95: ops.append(f"4 {i}" if i else f"1 {i}")
        elif x < .98:
            ks = [r.randrange(len(pool)) for _ in range(r.randint(0, 5))]
            ops.append(f"5 {len(ks)} " + " ".join(map(str, ks)))
        else: ops.append("7")
    return {"line": f"{w} {len(pool)} " + " ".join(ints(k) for k in pool) + " " + " ".join(ops), "label_bytes": w, "strings": pool, "ops": len(ops)}

def numbers(r):
    w = r.choice([11, 12, 14, 15, 18]); size = {11: 1, 12: 2, 14: 4, 15: 4, 18: 8}[w]
    n = r.randint(0, 6)
    return {"line": f"{w} {n} " + " ".join(str(r.choice([0, 1, 127, 128, 255, r.randrange(256)])) for _ in range(n * size)), "integers": n, "width": size}

def bulk(w, n, base, step, m, q):
    d = 1
    while base ** d < 2 * n: d += 1
    return {"line": f"{w} 0 8 {n} {base} {d} {step} {m} {q}", "label_bytes": w, "strings": 2 * n}
def bulks(q):
    o = [bulk(1, 500, 10, 7, 3, 1), bulk(2, 500, 1000, 1, 2, 0), bulk(4, 500, 30, 7, 5, 2), bulk(1, 35000, 250, 1, 3, 0), bulk(4, 35000, 26, 7919, 4, 1)]
    return o if q else o + [bulk(w, 70000, b, 7919, m, 1) for w, b in ((1, 200), (2, 3000), (4, 10)) for m in (2, 7)]

def corrupt(ev, r):
    if ev[-1].get("op") == "bulk": e = ev[-1]; e[r.choice(["a", "b", "back"])][r.randrange(e["n"])] += 1; return True
    for e in ev:
        if e.get("op") == "numbers":
            if e["iter"]: e["iter"][r.randrange(len(e["iter"]))] ^= 1; return True
            return False
    es = [e for e in ev if e.get("fwd")]
    if not es: return False
    e = r.choice(es); m = r.randrange(3)
    if m == 0: r.choice(e["fwd"])["id"] += 1
    elif m == 1: e["bwd"].pop()
    else: e["size"] += 1
    return True

ASSUMPTIONS = {"C04": ["an atom is not used after its set is mutated (it is re-fetched)", "known deviation: an identifier may change when a string extending its member is inserted (known_findings.jsonl)"]}

def C04(ctx):
    exe = build("atom")
    check_model(ctx, "AtomMC")
    cases = [history(ctx.rng, ctx.rng.randint(4, 30)) for _ in range(1500 if ctx.quick else 15000)]
    # every insert/erase history of length 3 (4) over related strings, in 1- and 4-byte labels
    for w, a, b in ((1, 97, 98), (4, 0x61, 0x6100)):
        pool = [[], [a], [b], [a, b], [a, a]]
        for seq in itertools.product([f"{o} {i}" for o in (1, 2, 3) for i in range(1, 5)], repeat=3 if ctx.quick else 4):
            cases.append({"line": f"{w} {len(pool)} " + " ".join(ints(k) for k in pool) + " " + " ".join(seq), "history": seq})
    cases += bulks(ctx.quick)
    ctx.extra["rule"] = "random histories of 4..30 operations over pools of related strings, every insert/erase history of length 3 (thorough: 4) over 4 related strings, and sets of up to 70 000 (140 000) strings with erasures and insertions afterwards"
    check_known(ctx, exe, "AtomTrace", cfg="AtomTraceStrict.cfg")
    conformance(ctx, exe, "AtomTrace", cases, corrupt=corrupt)

def C03_atoms(ctx):
    exe = build("atom")
    cases = [history(ctx.rng, ctx.rng.randint(4, 16), reloads=.5) for _ in range(500 if ctx.quick else 5000)]
    cases += [numbers(ctx.rng) for _ in range(400 if ctx.quick else 3000)]
    conformance(ctx, exe, "AtomTrace", cases, corrupt=corrupt, label="AtomTrace(round trips)")
