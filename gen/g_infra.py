from vlib import *
import itertools
ASSUMPTIONS = {"C26": ["texts are well-formed in their encoding form (the operations are documented to check nothing)", "isomorphic encoding is asked for code points up to U+00FF only, ASCII coding for ASCII only", "a matcher is cleared after it has decided"]}
def text(w, d, s, o): return {"line": "1 %d %d %s %s" % (w, d, ints(s), ints(o)), "type": ["char", "char8_t", "char16_t", "char32_t"][w], "text": s, "other": o, "delimiter": d}
def corrupt(ev, r):
    e = r.choice(ev)
    if e["op"] == "units":
        x = r.choice(e["r"]); m = r.randrange(4)
        if m == 0: x[1] += 1
        elif m == 1: x[3] += 1
        elif m == 2: x[2][-1] ^= 1
        else: e["r"].remove(x)
        return True
    if e["op"] == "class": e["r"][0][1] += 1; return True
    if e["op"] == "match":
        if not e["r"]: return False
        i = r.randrange(len(e["r"])); e["r"][i] = {"partial": "failed", "failed": "succeed", "succeed": "partial"}[e["r"][i]]; return True
    if e["op"] == "bytes": e["low"] = e["low"] + [97]; return True
    k = r.choice(["low", "up", "snl", "nnl", "strip", "coll", "col", "asc", "m1", "skip", "strict", "sws", "scom"])
    v = e[k]; e[k] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + [[97]] if k in ("strict", "sws", "scom") else v + [97]
    return True
def C26(ctx):
    exe = build("infra", []); r = ctx.rng; q = ctx.quick
    cases = [{"line": "3 %d" % k, "class": k} for k in range(17)]
    cases += [{"line": "6 %d %d" % (w, k), "type": w, "plane": k} for w in range(3) for k in range(17)]
    AL = [" ", "\t", "\r", "\n", ",", "a", "A", "\u3042", "\U0001f600"]       # the alphabet of InfraMC
    DL = [0x2C, 0x3042, 0x1F600, 0x61, 0xA, 0xE9]
    for k in range(0, 5):
        for t in itertools.product(AL, repeat=k):
            if k == 4 and q and r.random() < .7: continue
            s = "".join(t); o = r.choice([s.swapcase(), s[::-1], s + "a", s[:-1], s.upper()])
            for w in range(4) if k < 4 else (r.randrange(4),): cases.append(text(w, r.choice(DL[:3]), s, o))
    ALL = AL + ["\f", "\x0b", "\x00", "\x1f", "\x7f", "\x80", "\xa0", "\xe9", "z", "Z", "@", "[", "`", "{", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\u2028", "\u212a", "\u0130", "k", "K", "\ud7ff", "\ue000", "0", "-", "  ", "\r\n", ", ", "ab"]
    for _ in range(2500 if q else 60000):
        s = "".join(r.choice(ALL) for _ in range(r.randint(0, 14)))
        o = r.choice([s.lower(), s.upper(), s.swapcase(), s[:-1], s + "a", "".join(c.swapcase() if c.isascii() and r.random() < .5 else c for c in s), "".join(r.choice(ALL) for _ in range(len(s)))])
        cases.append(text(r.randrange(4), ord(r.choice(s)) if s and r.random() < .6 else r.choice(DL), s, o))
    for c in range(256): cases.append({"line": "2 %s %s" % (ints([c]), ints([c ^ 32])), "bytes": [c]})
    for _ in range(300 if q else 6000):
        n = r.randint(0, 12); hi = r.choice((128, 256)); b = [r.randrange(hi) if r.random() < .4 else r.choice([65, 90, 97, 122, 64, 91, 96, 123]) for _ in range(n)]
        o = r.choice([[x ^ 32 if 65 <= (x & ~32) <= 90 and r.random() < .7 else x for x in b], b[:-1], b + [97], [r.randrange(hi) for _ in b], [x ^ 32 for x in b]])
        cases.append({"line": "2 %s %s" % (ints(b), ints(o)), "bytes": b, "other": o})
    # the matcher: every set of up to two words over two letters, every text
    L = "ab"; WS = ["".join(x) for k in range(1, 4) for x in itertools.product(L, repeat=k)]
    sets = [()] + [(w,) for w in WS] + list(itertools.product(WS, repeat=2))
    TX = ["".join(x) for x in itertools.product("abc", repeat=5)]
    for ws in sets:
        for t in r.sample(TX, 4 if q else 40): cases.append({"line": "%d %d %s %s" % (r.choice((4, 5)), len(ws), " ".join(ints(w) for w in ws), ints(t)), "words": list(ws), "text": t})
    for _ in range(300 if q else 5000):
        ws = ["".join(r.choice("abc") for _ in range(r.randint(1, 6))) for _ in range(r.randint(1, 4))]; t = "".join(r.choice([r.choice(ws), r.choice("abcd"), r.choice(ws)[:-1]]) for _ in range(r.randint(1, 6)))
        cases.append({"line": "%d %d %s %s" % (r.choice((4, 5)), len(ws), " ".join(ints(w) for w in ws), ints(t)), "words": ws, "text": t})
    ctx.extra["rule"] = "recorded results equal the operators of Infra.tla on the same text; each class is the same set of code points over all 1114112 of them, and every scalar value is written in UTF-8 and UTF-16 as the specification says and read back"
    check_model(ctx, "InfraMC", "InfraMC.cfg" if q else "InfraMCdeep.cfg")
    conformance(ctx, exe, "InfraTrace", cases, corrupt=corrupt, ncanary=40)
