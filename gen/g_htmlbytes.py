from vlib import *
import itertools
ASSUMPTIONS = {"C25": ["bytes are elements of type char", "the encoding a document starts in is given by the caller (there is no prescan, locale or frequency heuristic)", "fragment parsing is not covered", "no CDATA sections (known finding of C13)"]}
LIBS = ["atom_tbl", "idx_ptr", "idx_cp", "encoding"]
PY = {1: "utf-8", 3: "iso8859-2", 22: "cp1252", 30: "gbk", 31: "gb18030", 32: "big5", 33: "euc-jp", 34: "iso2022_jp", 35: "shift_jis", 36: "euc-kr", 38: "utf-16-be", 39: "utf-16-le"}
def case(b, kind=0, e=1, conf=0, before=()):
    return {"line": " ".join(["1", str(kind), str(e), str(conf), ints(list(b))] + [ints(list(x)) for x in before]), "bytes": b.hex(), "kind": kind, "encoding": e, "confidence": conf, "before": [x.hex() for x in before]}
def extract(t): return {"line": "2 " + ints(t), "text": t}
def corrupt(ev, r):
    e = r.choice(ev)
    if e["op"] == "extract": e["r"] = (e["r"] + 1) % 41; return True
    if not e.get("r"): return False
    x = r.choice(e["r"])
    if x["k"] in ("text", "com"): x["d"] = x["d"] + [0xFFFD]
    else: x["l"] += 1
    return True
def C25(ctx):
    exe = build("htmlbytes", LIBS); r = ctx.rng; q = ctx.quick
    D = json.load(open(os.path.join(SPEC, "data", "enc.json")))
    labels = [(bytes(l[0]).decode(), l[1]) for l in D["labels"]]
    byenc = {}
    for l, e in labels: byenc.setdefault(e, []).append(l)
    WS = ["", "", "", " ", "\t", "\n", "\f", "&#13;", "  "]
    def mix(s): return "".join(c.upper() if r.random() < .3 else c for c in s)
    def quoted(v):
        if "&#13;" not in v and not any(c in v for c in " \t\n\f\"'=<>`") and v and r.random() < .4: return v
        return '"' + v + '"' if '"' not in v else "'" + v + "'"
    def content(l):
        pre = r.choice(["text/html; ", "", "text/html;", "charset", "charset;", "charset charset ", "xcharset", "a=b;", "charse"])
        w = lambda: r.choice(WS)
        val = r.choice([l, l, l + ";x", l + " y", "'" + l + "'", "'" + l, "' " + l + " 'z", ";" + l, w() + l, l + w(), "'" + l + '"', ""])
        return pre + mix("charset") + w() + r.choice(["=", "=", "=", "=", "", "==", ":"]) + w() + val
    def meta(l):
        k = r.randrange(10); l = mix(l)
        cs = " charset=" + quoted(r.choice(["", " ", "\n"]) + l + r.choice(["", "", " "]))
        he = " http-equiv=" + quoted(mix(r.choice(["content-type"] * 5 + ["content-type ", "contenttype", "refresh", "default-style"])))
        co = " content=" + quoted(content(l) if r.random() < .6 else "text/html; charset=" + l)
        if k < 3: at = cs
        elif k < 7: at = [he + co, co + he][k % 2]
        elif k == 7: at = " charset=bad" + he + co
        elif k == 8: at = " charset=" + r.choice([x for x, _ in labels]) + he + co
        else: at = r.choice([co, he, " name=charset" + co, " charset", " charset=" + l + " charset=utf-8", " charset=none" + cs])
        return "<" + r.choice(["meta", "meta", "META", "meta"]) + at + r.choice([">", ">", ">", "/>", " />", " x>"])
    PLACES = ["", "<!doctype html>", "<html>", "<head>", "<head></head>", "<head><title>a</title>", "<p>", "<div><b>", "<!doctype html><body>", "<table>", "<table><tr><td>", "<template>", "<noscript>", "<svg>", "<svg><desc>", "<math><mi>", "<select>", "<frameset>", "<title>", "<!--", "<script>", "<style>", "<textarea>", "<body></body>", "<p></body></html>",
              "<frameset></frameset>", "<table><caption>", "<table><colgroup>", "<plaintext>", "<a href='", "<object>", "<noframes>", "<button>", "<template><td>", "<ul><li>", "x", " \n", "<head><noscript>"]
    def payload(e):
        k = r.randrange(4)
        txt = "".join(r.choice(["\u3042", "\u65e5", "\u00e9", "\u0141", "\uac00", "\u4e2d", "a", "\u044f", "<p>", "\uff71", "\u20ac", "\U0001f600", "&amp;", "x=", "<b title=\u3042>"]) for _ in range(r.randint(1, 6)))
        if k < 3 and e in PY: return txt.encode(PY[e], "ignore")
        return bytes(r.choice([r.randrange(128, 256), r.randrange(32, 127), r.randrange(128, 256), 0x81, 0xE3, 0x1B, 0x3C]) for _ in range(r.randint(1, 8)))
    ENC = sorted(e for e in byenc)
    cases = []
    # every label, in charset= and in content=, for a document of bytes that tell encodings apart
    probe = b"\xe3\x81\x82\x93\xfa\x96\x7b\xa4\xa2\x81\x30\x81\x30\x80\x1b$B$\"\x1b(B\xff"
    for l, e in labels:
        cases.append(case(b"<meta charset=" + quoted(l).encode() + b">" + probe, kind=r.randrange(3)))
        if not q or r.random() < .4: cases.append(case(b'<p>\xe9<meta content="text/html; charset=' + l.encode() + b'" http-equiv=content-type>' + probe, kind=r.randrange(3), e=r.choice(ENC)))
    # every place a meta element can stand
    for pl in PLACES:
        for _ in range(3 if q else 20):
            e = r.choice(ENC)
            cases.append(case(pl.encode() + meta(r.choice(byenc[e])).encode() + payload(e), kind=r.randrange(3)))
            cases.append(case(payload(e) + pl.encode() + b"<meta charset=" + r.choice(byenc[e]).encode() + b">" + payload(e), kind=r.randrange(3), e=r.choice(ENC), conf=r.choice((0, 0, 0, 1, 2))))
    # every pair of encodings given and declared, with each confidence
    for g in ENC:
        for d in ENC:
            if q and r.random() < .5: continue
            conf = 0 if r.random() < .8 else r.choice((1, 2))
            b = b"<meta charset=" + r.choice(byenc[d]).encode() + b">" + payload(d)
            if g in (38, 39) and r.random() < .7: b = b.decode("latin-1").encode(PY[g])
            cases.append(case(b, kind=r.randrange(3), e=g, conf=conf))
    # byte order marks
    for bom in (b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b"\xef\xbb", b"\xfe", b"\xff", b"\xef\xbb\xbf\xef\xbb\xbf", b"\xfe\xff\xfe\xff", b"\x00\xfe\xff", b"\xff\xfe\x00\x00"):
        for _ in range(12 if q else 60):
            e = r.choice(ENC); body = (meta(r.choice(byenc[e])) + "\u3042<p>\u00e9")
            cod = {b"\xfe\xff": "utf-16-be", b"\xff\xfe": "utf-16-le"}.get(bom, "utf-8") if r.random() < .8 else "utf-8"
            cases.append(case(bom + body.encode(cod), kind=r.randrange(3), e=r.choice(ENC), conf=r.choice((0, 0, 1, 2))))
        cases.append(case(bom)); cases.append(case(bom, e=39)); cases.append(case(bom + b"\x80", e=22))
    # several declarations, at random
    JUNK = ["<p>", "<b>", "x", " ", "<title>", "</title>", "<head>", "<body>", "<table>", "<td>", "</table>", "<template>", "</template>", "<svg>", "</svg>", "<!--", "-->", "<select>", "</select>", "<frameset>", "<script>", "</script>", "<noscript>", "</noscript>", "<meta", "<meta name=a>", "\r\n", "<!doctype html>", "<meta charset>", "</head>"]
    def rnd(n):
        b = b""
        for _ in range(n):
            k = r.randrange(5); e = r.choice(ENC)
            b += meta(r.choice(byenc[e]) if r.random() < .9 else r.choice(["bad", "", "utf", "utf-7", "utf-8x"])).encode() if k < 2 else r.choice(JUNK).encode() if k < 4 else payload(e)
        return b
    for _ in range(700 if q else 20000): cases.append(case(rnd(r.randint(1, 6)), kind=r.randrange(3), e=r.choice(ENC) if r.random() < .4 else 1, conf=0 if r.random() < .85 else r.choice((1, 2))))
    for _ in range(200 if q else 4000): cases.append(case(rnd(r.randint(1, 4)), kind=3, e=r.choice((0, 1, 1, 22, 35, 38)), conf=r.choice((0, 0, 0, 1, 2)), before=[rnd(r.randint(1, 3)) for _ in range(r.randint(1, 3))]))
    for _ in range(100 if q else 1500): cases.append(case(rnd(r.randint(1, 4)).decode("latin-1").encode(r.choice(("utf-16-be", "utf-16-le"))), kind=r.randrange(3), e=r.choice((38, 39)), conf=r.randrange(3)))
    # the extraction by itself: every text of a few pieces, and grown ones
    PC = ["charset", "=", " ", '"', "'", "utf-8", ";", "sjis", "x"]
    for k in range(1, 5 if q else 6):
        for t in itertools.product(PC, repeat=k):
            if k < 4 or "charset" in t[:2]: cases.append(extract("".join(t)))
    for _ in range(1500 if q else 20000): cases.append(extract("".join(r.choice(PC + [l for l, _ in labels[:5]] + ["Charset", "CHARSET=", "\t", "\r", "\f", "\n", "charse", "=utf-16", "charset=", "charset = ", "\u3042", "\u212a"]) for _ in range(r.randint(1, 9)))))
    for l, e in labels: cases.append(extract("text/html; charset=" + l)); cases.append(extract(content(mix(l)).replace("&#13;", "\r")))
    ctx.extra["rule"] = "recorded trees equal FlatDoc(Read(bytes, encoding, confidence).tree), extracted encodings ExtractMeta(text) of HtmlBytes.tla"
    check_model(ctx, "HtmlBytesMC", "HtmlBytesMC.cfg" if q else "HtmlBytesMCdeep.cfg")
    conformance(ctx, exe, "HtmlBytesTrace", cases, corrupt=corrupt, ncanary=24)
