from vlib import *
ASSUMPTIONS = {p: ["the index tables of spec/data/enc.json are the Standard's (cross-checked against Python's and Node's codecs when they were written; the reverse tables are checked against the forward ones by EncodingMC)",
                   "gb18030 in its form before the 2022 revision, which the library implements"] for p in ("C09", "C10", "C11", "C12")}
UTF8, GBK, GB, BIG5, EUCJP, ISO, SJIS, EUCKR, REPL, BE, LE, XU = 1, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40
SINGLES = range(2, 30)
LIBS = ["idx_ptr", "idx_cp", "encoding"]
ENV = {"SPECDATA": os.path.join(SPEC, "data")}
D = json.load(open(os.path.join(SPEC, "data", "enc.json")))

def corrupt(ev, r):
    e = r.choice(ev); op = e["op"]
    def bump(lst):
        k = r.randrange(len(lst) + 1) if r.random() < .5 or not lst else r.randrange(len(lst))
        if k < len(lst) and r.random() < .6: lst[k] += 1 if lst[k] < 65 else -1
        elif k < len(lst) and r.random() < .5: del lst[k]
        else: lst.insert(k, 120)
    if op == "dec":
        m = r.randrange(4)
        if m == 0: bump(r.choice(e["rep"]))
        elif m == 1: bump(e["fat"])
        elif m == 2: e["err"] ^= True
        else: e["eoqs"] += 1
    elif op == "hook":
        m = r.randrange(5)
        if m < 4: bump(e[("dec", "u8", "nobom", "orfail")[m]])
        else: e["bom"] += 1
    elif op == "td":
        c = e["calls"][-1]
        if c["threw"] or r.random() < .3: c["threw"] ^= True
        else: bump(c["out"])
    elif op == "label": e["name"] = e["name"] + 1
    elif op == "enc": bump(e[r.choice(["html", "fat"])])
    elif op == "cast": bump(e[r.choice(["s", "u16", "r1", "x1"])])
    elif op == "ioq":
        o = [x for x in e["ops"] if x["k"] in (2, 3, 4, 6)]
        if not o: return False
        o = r.choice(o)
        if o["k"] == 6 or o["r"]: o["r"].append(7)
        else: o["wait"] ^= True
        if not o["wait"] and o["k"] == 3 and not o["r"]: pass
    return True

def split(r, b, n):
    """b cut into at most n chunks (possibly empty ones)"""
    cuts = sorted(r.randrange(len(b) + 1) for _ in range(n - 1))
    return [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
def dec(e, chunks): return {"line": f"1 {e} {len(chunks)} " + " ".join(ints(c) for c in chunks), "dec": e, "in": chunks if sum(map(len, chunks)) < 60 else "..."}
def hook(e, b): return {"line": f"2 {e} " + ints(b), "hook": e, "in": b[:60]}
def td(e, fatal, ign, calls): return {"line": f"3 {e} {int(fatal)} {int(ign)} {len(calls)} " + " ".join(f"{int(s)} {ints(c)}" for s, c in calls), "td": e, "calls": calls if len(calls) < 6 else "..."}
def label(t): return {"line": "4 " + ints(t), "label": t if isinstance(t, str) else list(t)}
def enc(e, t): return {"line": f"5 {e} " + ints(t), "enc": e, "in": list(t)[:40]}
def cast(t): return {"line": "6 " + ints(t), "cast": list(t)[:40]}

def scalar(r):
    while True:
        c = r.choice([r.randrange(0x80), r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000), r.choice([0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF])])
        if not 0xD800 <= c <= 0xDFFF: return c

U8ALPHA = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFE, 0xFF]
def utf8_bytes(r, n):
    b = []
    while len(b) < n:
        m = r.random()
        if m < .4: b += list(chr(scalar(r)).encode())
        elif m < .7:
            x = list(chr(scalar(r)).encode()); b += x[:r.randrange(len(x)) + 1]
        elif m < .85: b.append(r.choice(U8ALPHA))
        else: b.append(r.randrange(256))
    return b
def utf16_bytes(r, n, be):
    b = []
    while len(b) < n:
        m = r.random()
        if m < .35: u = [r.randrange(0xD800, 0xDC00)]
        elif m < .6: u = [r.randrange(0xDC00, 0xE000)]
        elif m < .75: u = [r.randrange(0xD800, 0xDC00), r.randrange(0xDC00, 0xE000)]
        else: u = [r.choice([0x41, 0xFEFF, 0xFFFE, 0xD7FF, 0xE000, r.randrange(65536)])]
        for x in u: b += [x >> 8, x & 255] if be else [x & 255, x >> 8]
        if r.random() < .1: b.append(r.randrange(256))
    return b

def C09(ctx):
    exe = build("encoding", LIBS); check_model(ctx, "EncodingMC", None if ctx.quick else "EncodingMCdeep.cfg"); r = ctx.rng
    cases = []
    # every UTF-8 string of 1..3 (4) critical bytes, followed by an ASCII byte and without it
    al = U8ALPHA
    lim = 1.0 if not ctx.quick else .25
    for a in range(256): cases.append(dec(UTF8, [[a]]))
    for a in range(0x80, 256):
        cases.append(dec(UTF8, [sum(([a, b, 0x41] for b in range(256)), [])]))
    pack = []
    for a in al:
        for b in al:
            for c in al:
                if r.random() < lim: pack.append([a, b, c])
    for a in [0xE0, 0xE1, 0xED, 0xF0, 0xF1, 0xF4, 0xF5]:
        for b in al:
            for c in al:
                for d in al:
                    if r.random() < lim * .35: pack.append([a, b, c, d])
    r.shuffle(pack)
    for i in range(0, len(pack), 40): cases.append(dec(UTF8, [sum((p + [0x41] for p in pack[i:i + 40]), [])]))
    for p in pack[:400 if ctx.quick else 6000]: cases.append(dec(UTF8, [p]))
    for _ in range(300 if ctx.quick else 8000): cases.append(dec(UTF8, split(r, utf8_bytes(r, r.randint(1, 30)), r.randint(1, 4))))
    # UTF-16: every pair of code unit classes, odd lengths, random
    cls = [0x0041, 0x00D8, 0xD800, 0xD8DC, 0xDBFF, 0xDC00, 0xDCD8, 0xDFFF, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE]
    for e in (BE, LE):
        f = lambda us: sum(([u >> 8, u & 255] if e == BE else [u & 255, u >> 8] for u in us), [])
        for a in cls:
            for b in cls:
                for c in ([], [0x41], [0xDC00], [0xD8]):
                    for odd in ([], [0xD8]):
                        cases.append(dec(e, [f([a, b] + c) + odd]))
        for _ in range(200 if ctx.quick else 6000): cases.append(dec(e, split(r, utf16_bytes(r, r.randint(1, 30), e == BE), r.randint(1, 4))))
    # encoding: every boundary, a sweep over the code space, random texts
    bnd = [c for k in (0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF) for c in (k - 1, k, k + 1) if 0 <= c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF]
    sweep = [c for c in range(0, 0x110000, 97 if ctx.quick else 5) if not 0xD800 <= c <= 0xDFFF]
    for t in [bnd] + [sweep[i:i + 120] for i in range(0, len(sweep), 120)] + [[scalar(r) for _ in range(r.randint(0, 30))] for _ in range(100 if ctx.quick else 3000)]:
        cases.append(enc(UTF8, t)); cases.append(cast(t))
    for _ in range(60 if ctx.quick else 600): cases.append(hook(UTF8, utf8_bytes(r, r.randint(0, 20))))
    ctx.extra["rule"] = "all UTF-8 strings of one or two bytes, of three and four bytes over 27 critical bytes (sampled in quick), all pairs of UTF-16 unit classes, random ill-formed texts, a sweep of the code space for encoding and conversion"
    conformance(ctx, exe, "EncodingTrace", cases, corrupt=corrupt, env=ENV)

LEADS = {GB: range(0x80, 0x100), GBK: range(0x80, 0x100), BIG5: range(0x80, 0x100), EUCJP: range(0x80, 0x100), SJIS: range(0x80, 0x100), EUCKR: range(0x80, 0x100)}
def legacy_bytes(r, e, n):
    b = []
    while len(b) < n:
        m = r.random()
        if e == ISO:
            b += r.choice([[0x1B, 0x28, 0x42], [0x1B, 0x28, 0x4A], [0x1B, 0x28, 0x49], [0x1B, 0x24, 0x40], [0x1B, 0x24, 0x42], [0x1B], [0x1B, 0x24], [0x1B, 0x28],
                           [0x5C], [0x7E], [0x0E], [0x41], [r.randrange(0x21, 0x7F), r.randrange(0x21, 0x7F)], [r.randrange(0x21, 0x7F)], [0x30, 0x21], [r.randrange(256)], [0x24], [0x28]])
        elif e in (GB, GBK):
            b += r.choice([[r.randrange(0x81, 0xFF), r.randrange(0x40, 0xFF)], [r.randrange(0x81, 0x85), r.randrange(0x30, 0x3A), r.randrange(0x81, 0xFF), r.randrange(0x30, 0x3A)],
                           [r.randrange(0x81, 0xFF), r.randrange(0x30, 0x3A)], [r.randrange(0x81, 0xFF), r.randrange(0x30, 0x3A), r.randrange(0x81, 0xFF)],
                           [r.randrange(0x90, 0xE4), r.randrange(0x30, 0x3A), r.randrange(0x81, 0xFF), r.randrange(0x30, 0x3A)], [r.randrange(256)], [0x41], [0x80], [0xFF]])
        elif e == EUCJP:
            b += r.choice([[0x8E, r.randrange(0xA1, 0xE0)], [0x8F, r.randrange(0xA1, 0xFF), r.randrange(0xA1, 0xFF)], [0x8F, r.randrange(0xA1, 0xFF)], [0x8F], [r.randrange(0xA1, 0xFF), r.randrange(0xA1, 0xFF)], [r.randrange(256)], [0x41], [0x8E]])
        else:
            b += r.choice([[r.randrange(0x81, 0xFF), r.randrange(0x40, 0xFF)], [r.randrange(0x81, 0xFF), r.randrange(0x40, 0xFF)], [r.randrange(0x81, 0xFF)], [r.randrange(256)], [0x41]])
    return b
def encodable(e):
    if e in SINGLES: return [c for c in D["single"][e - 1] if c != -1]
    k = {GB: "gb18030", GBK: "gb18030", BIG5: "big5", EUCJP: "jis0208", ISO: "jis0208", SJIS: "Shift_JIS", EUCKR: "euc_kr"}.get(e)
    if k is None: return list(range(0xF780, 0xF800))
    return [i * 256 + j for i, p in enumerate(D["rev"][k]) for j, x in enumerate(p) if x != -1]

def C10(ctx):
    exe = build("encoding", LIBS); check_model(ctx, "EncodingMC", None if ctx.quick else "EncodingMCdeep.cfg"); r = ctx.rng
    cases = []
    for e in list(SINGLES) + [XU, REPL]:
        cases.append(dec(e, [list(range(256))]))
        for _ in range(2): cases.append(dec(e, split(r, [r.randrange(256) for _ in range(r.randint(0, 12))], 2)))
    # every lead byte with every trail byte
    for e, leads in LEADS.items():
        for a in leads:
            for h in range(2):
                tr = [t for t in range(h * 128, h * 128 + 128)]
                if ctx.quick and h == 0: tr = [t for t in tr if t in (0, 0x1F, 0x21, 0x2F, 0x30, 0x39, 0x3A, 0x3F, 0x40, 0x41, 0x7E, 0x7F) or r.random() < .3]
                if ctx.quick and e == GBK: tr = [t for t in tr if r.random() < .1]
                if ctx.quick and h == 1: tr = [t for t in tr if t in (0x80, 0x81, 0xA0, 0xA1, 0xDF, 0xE0, 0xFC, 0xFD, 0xFE, 0xFF) or r.random() < .5]
                cases.append(dec(e, [sum(([a, t, 0x61] for t in tr), [])]))
    cases += [dec(BIG5, [[0x88, t, 0x61]]) for t in range(0x40, 0x100)]   # the four pairs that stand for two code points are among these
    for a in range(0x80, 0x100):   # jis0212 and half-width katakana
        tr = [t for t in range(0x80, 0x100) if not ctx.quick or t in (0x80, 0xA0, 0xA1, 0xFE, 0xFF) or r.random() < .5]
        cases.append(dec(EUCJP, [sum(([0x8F, a, t, 0x61] for t in tr), [])]))
    # gb18030 four-byte sequences: around every range boundary, around the holes, random
    pts = sorted({p + d for p, _ in D["ranges"] for d in (-1, 0, 1)} | {39417, 39418, 39419, 39420, 39421, 188999, 189000, 189001, 1237574, 1237575, 1237576, 7456, 7457, 7458, 1587599} | {r.randrange(1587600) for _ in range(300)} | {r.randrange(39420) for _ in range(300)})
    four = [[p // 12600 + 0x81, p % 12600 // 1260 + 0x30, p % 1260 // 10 + 0x81, p % 10 + 0x30] for p in pts if 0 <= p < 1587600]
    for i in range(0, len(four), 30): cases.append(dec(GB, [sum(four[i:i + 30], [])])); cases.append(dec(GBK, [sum((f + [0x61] for f in four[i:i + 15]), [])]))
    # truncations and interruptions of four-byte sequences
    for a in (0x80, 0x81, 0x84, 0x90, 0xE3, 0xFE, 0xFF):
        for b in (0x2F, 0x30, 0x39, 0x3A, 0x40, 0x7F, 0x80, 0xFF):
            for c in (0x30, 0x80, 0x81, 0xFE, 0xFF):
                for d in (0x2F, 0x30, 0x39, 0x3A, 0x81, 0xFF): cases.append(dec(GB, [[a, b, c, d, 0x61]]))
                cases.append(dec(GB, [[a, b, c]]))
    # ISO-2022-JP: every string of up to 4 (6) critical items
    al = [[0x1B], [0x24], [0x28], [0x42], [0x4A], [0x49], [0x40], [0x21], [0x5C], [0x0E], [0x80], [0x1B, 0x24, 0x42], [0x1B, 0x28, 0x49]]
    import itertools
    for n in (1, 2, 3): 
        for t in itertools.product(al, repeat=n):
            if n < 3 or not ctx.quick or r.random() < .3: cases.append(dec(ISO, [sum(t, [])]))
    # every byte in every state of ISO-2022-JP, and after the first byte of a character; every byte alone in the others
    for q in ([], [0x1B, 0x28, 0x42], [0x1B, 0x28, 0x4A], [0x1B, 0x28, 0x49], [0x1B, 0x24, 0x40], [0x1B, 0x24, 0x42]):
        for h in range(0, 256, 64):
            cases.append(dec(ISO, [sum((q + [b, 0x41] for b in range(h, h + 64)), [])]))
            if q: cases.append(dec(ISO, [sum((q + [0x30, b, 0x21] for b in range(h, h + 64)), [])]))
    for e in (GB, GBK, BIG5, EUCJP, SJIS, EUCKR):
        for h in range(0, 256, 64): cases.append(dec(e, [sum(([b, 0x61] for b in range(h, h + 64)), [])]))
    for e in [GB, GBK, BIG5, EUCJP, ISO, SJIS, EUCKR]:
        for h in range(0, 0x200, 64): cases.append(enc(e, list(range(h, h + 64)))); cases.append(enc(e, sum(([0x4E00, c] for c in range(h, h + 64)), []))); cases.append(enc(e, sum(([0xA5, c] for c in range(h, h + 64)), [])))
    for e in [GB, GBK, BIG5, EUCJP, ISO, SJIS, EUCKR]:
        for _ in range(120 if ctx.quick else 4000): cases.append(dec(e, split(r, legacy_bytes(r, e, r.randint(1, 24)), r.randint(1, 3))))
    # encoders: every encodable code point, neighbours that are not, random mixtures
    for e in list(SINGLES) + [GB, GBK, BIG5, EUCJP, ISO, SJIS, EUCKR, XU]:
        cs = encodable(e)
        if ctx.quick and len(cs) > 2000: cs = [c for c in cs if r.random() < .34]
        sp = [0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345, 0, 0xE, 0xF, 0x1B, 0x5C, 0x7E, 0x7F, 0x80, 0xA5, 0x203E, 0x2212, 0x20AC, 0xE5E5, 0xE7C7, 0xFF0D, 0xFF61, 0xFF9F, 0xFFA0, 0xF780, 0xF7FF, 0xF800, 0xFFFF, 0x10000, 0x10001, 0x10FFFF]
        for i in range(0, len(cs), 100): cases.append(enc(e, cs[i:i + 100]))
        for a in sp: cases.append(enc(e, [a]))
        for _ in range(60 if ctx.quick else 2500):
            cases.append(enc(e, [r.choice([r.choice(cs), r.choice(sp), 0x41, 0x5C, scalar(r), r.choice(cs) + r.choice([-1, 1])]) for _ in range(r.randint(1, 10))]))
    cases = [c for c in cases if not ("enc" in c and any(0xD800 <= x <= 0xDFFF for x in map(int, c["line"].split()[3:])))]
    rp = sorted({c + d for _, c in D["ranges"] for d in (-1, 0, 1)} - set(range(0xD800, 0xE000)))
    for i in range(0, len(rp), 100): cases.append(enc(GB, rp[i:i + 100])); cases.append(enc(GBK, rp[i:i + 100]))
    for _ in range(40): cases.append(enc(GB, [scalar(r) for _ in range(40)]))
    ctx.extra["rule"] = "every byte of the single-byte encodings, every lead with (sampled in quick) every trail byte of the multi-byte ones, gb18030 four-byte sequences at every range boundary, ISO-2022-JP escape strings, (sampled) every encodable code point and its neighbours"
    conformance(ctx, exe, "EncodingTrace", cases, corrupt=corrupt, env=ENV, ncanary=16)

def C11(ctx):
    exe = build("encoding", LIBS); check_model(ctx, "EncodingMC", None if ctx.quick else "EncodingMCdeep.cfg"); r = ctx.rng
    cases = []
    encs = list(range(1, 41))
    def text(e, n):
        if e == UTF8: return utf8_bytes(r, n)
        if e in (BE, LE): return utf16_bytes(r, n, e == BE)
        if e in SINGLES or e in (XU, REPL): return [r.randrange(256) for _ in range(n)]
        return legacy_bytes(r, e, n)
    heavy = [UTF8, GB, BIG5, EUCJP, ISO, SJIS, EUCKR, BE, LE]
    # every cut of short strings into two, and byte by byte
    for e in heavy * (5 if ctx.quick else 60) + encs:
        b = text(e, r.randint(2, 9))
        for k in range(len(b) + 1): cases.append(dec(e, [b[:k], b[k:]]))
        cases.append(dec(e, [[x] for x in b]))
        cases.append(dec(e, split(r, b, 5)))
    for _ in range(300 if ctx.quick else 8000):
        e = r.choice(heavy); cases.append(dec(e, split(r, text(e, r.randint(4, 40)), r.randint(2, 9))))
    # TextDecoder: any sequence of streaming and flushing calls
    for _ in range(500 if ctx.quick else 12000):
        e = r.choice(heavy + [r.choice([x for x in encs if x != REPL])]); calls = []
        for _ in range(r.randint(1, 4)):
            b = (r.choice([[], [0xEF, 0xBB, 0xBF], [0xFE, 0xFF], [0xFF, 0xFE], [0xEF, 0xBB]]) + text(e, r.randint(0, 10)))
            ch = split(r, b, r.randint(1, 4))
            calls += [(i + 1 < len(ch) or r.random() < .15, c) for i, c in enumerate(ch)]
        cases.append(td(e, r.random() < .25, r.random() < .3, calls))
    # the I/O queue itself
    for _ in range(300 if ctx.quick else 5000):
        ops = []; eoq = False
        for _ in range(r.randint(1, 14)):
            k = r.choice([1, 1, 1, 2, 3, 4, 5, 6])
            if k == 1: ops.append(f"1 {-1 if r.random() < .15 else r.randrange(256)}")
            elif k in (3, 4): ops.append(f"{k} {r.randint(1, 4)}")
            elif k == 5: ops.append("5 0 " + ints([r.randrange(256) for _ in range(r.randint(1, 3))]))
            else: ops.append(f"{k} 0")
        cases.append({"line": f"7 {len(ops)} " + " ".join(ops), "ioq": ops})
    ctx.extra["rule"] = "every cut in two and the byte-by-byte feed of random strings in every encoding, random chunkings, random histories of streaming and flushing TextDecoder calls, random operation histories of the I/O queue"
    conformance(ctx, exe, "EncodingTrace", cases, corrupt=corrupt, env=ENV, ncanary=16)

def C12(ctx):
    exe = build("encoding", LIBS); check_model(ctx, "EncodingMC", None if ctx.quick else "EncodingMCdeep.cfg"); r = ctx.rng
    cases = []
    labels = ["".join(map(chr, l)) for l, _ in D["labels"]]
    ws = ["", " ", "\t", "\n", "\f", "\r", "  ", "\t \n", "\r\n"]
    for l in labels:
        cases += [label(l), label(l.upper()), label(l.title()), label(r.choice(ws) + l + r.choice(ws)), label(r.choice(ws[1:]) + "".join(r.choice([c, c.upper()]) for c in l) + r.choice(ws[1:]))]
        k = r.randrange(len(l))
        cases += [label(l[:k] + l[k + 1:]), label(l + r.choice("0x-_ a")), label(r.choice("xc-i") + l), label(l[:k] + r.choice("abcdefghijklmnopqrstuvwxyz0123456789-_:+ \u0130\u212a\x0b\xa0\x00") + l[k + 1:]),
                  label(l[:k] + " " + l[k:]), label(l.replace("-", "_")), label(l.replace("_", "-")), label(l.replace("k", "\u212a").replace("s", "\u017f"))]
    for w in ws: cases += [label(w), label("\x0butf-8" + w), label("\xa0utf8" + w), label("utf\x00-8" + w)]
    for _ in range(200 if ctx.quick else 5000):
        l = list(r.choice(labels))
        for _ in range(r.randint(1, 2)):
            k = r.randrange(len(l) + 1)
            if r.random() < .4: l[k:k + 1] = []
            elif r.random() < .5: l.insert(k, chr(r.choice([r.randrange(33, 127), r.randrange(0x250)])))
            elif len(l) > 1: i, j = r.randrange(len(l)), r.randrange(len(l)); l[i], l[j] = l[j], l[i]
        cases.append(label("".join(l)))
    bal = [0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 0x00, 0x41]
    pre = [[]] + [[a] for a in bal] + [[a, b] for a in bal for b in bal] + [[a, b, c] for a in bal for b in bal for c in bal if a in (0xEF, 0xFE, 0xFF)]
    for p in pre:
        for suf in ([], [0x41], [0xC3, 0xA9], [0xEF, 0xBB, 0xBF], [0xFE, 0xFF, 0x41]):
            if len(p) == 3 and ctx.quick and r.random() < .6: continue
            for e in [r.choice([UTF8, BE, LE]), r.choice(list(SINGLES)), r.choice([GBK, GB, BIG5, EUCJP, SJIS, EUCKR, ISO, XU, REPL])]:
                cases.append(hook(e, p + suf))
    ctx.extra["rule"] = "every label in several casings and with surrounding white space, near misses of every label, every byte order mark prefix over seven bytes with every kind of requested encoding"
    conformance(ctx, exe, "EncodingTrace", cases, corrupt=corrupt, env=ENV)
