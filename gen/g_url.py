from vlib import *
import itertools
ASSUMPTIONS = {p: ["the library implements the URL Standard of early 2021 (cannot-be-a-base-URL flag, the IPv4 and hostname rules of that time) with the later corrections named in DESIGN.md",
                   "domain to ASCII (UTS #46) is specified for ASCII and a table of other code points; the rest of Unicode is not judged"] for p in ("C20", "C21", "C22", "C23", "C24", "C28", "C30")}
LIBS = ["idx_ptr", "idx_cp", "encoding", "url", "host"]
ENV = {"SPECDATA": os.path.join(SPEC, "data")}
UTF8 = 1
ENCS = [1, 2, 5, 20, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40]

def corrupt(ev, r):
    e = r.choice(ev); op = e["op"]
    def bump(lst):
        k = r.randrange(len(lst) + 1) if r.random() < .5 or not lst else r.randrange(len(lst))
        if k < len(lst) and r.random() < .6: lst[k] += 1 if lst[k] < 65 else -1
        elif k < len(lst) and r.random() < .5: del lst[k]
        else: lst.insert(k, 120)
    def rec(u):
        m = r.randrange(8)
        if m == 0: bump(u["s"])
        elif m == 1: bump(u["u"])
        elif m == 2: bump(u["w"])
        elif m == 3: u["h"] = {"t": 1, "v": [120, 121]} if u["h"]["t"] != 1 else {"t": 4, "v": u["h"]["v"]}
        elif m == 4: u["p"] = [u["p"][0] + 1] if u["p"] else [81]
        elif m == 5: u["path"].append([])
        elif m == 6: u["q"] = [] if u["q"] else [[]]
        else: u["c"] ^= True
    if op == "hosteq": e[r.choice(["eq", "qe"])] ^= True
    elif op == "parse":
        m = r.randrange(5)
        if m == 0 or not e["ok"]: e[r.choice(["ok", "pok"])] ^= True
        elif m == 1: rec(e["r"])
        elif m == 2: bump(e[r.choice(["ser", "serx"])])
        elif m == 3: rec(e["rt"][0])
        elif e["api"]: bump(e["g"][r.choice(sorted(e["g"]))])
        else: e["api"] ^= True
    elif op in ("open", "set"):
        if op == "set" and r.random() < .2: e["threw"] ^= True
        elif "r" not in e: e["ok"] ^= True
        elif r.random() < .5: rec(e["r"])
        else: bump(e["g"][r.choice(sorted(e["g"]))])
    elif op == "host":
        if e["h"]["t"] == -1: e["h"] = {"t": 1, "v": e["in"]} if r.random() < .5 else {"t": 0, "v": []}
        elif r.random() < .5: bump(e["ser"])
        else: bump(e["h"]["v"])
    elif op == "addr": bump(e[r.choice(["ser"])]) if r.random() < .5 else bump(e["rt"]["v"])
    elif op == "penc": bump(e[r.choice(["out", "u8", "u8c", "back"])])
    elif op == "member": k = r.choice(e["m"]); i = r.randrange(len(k)); k[i] ^= 1
    elif op == "pdec": bump(e[r.choice(["o1", "o2"])])
    elif op == "eq":
        if not (e["aok"] and e["bok"]): e["aok"] ^= True
        else: e[r.choice(["eq", "eqx", "qe"])] ^= True
    return True

IGN = "\t\n\r\xad\u200b\u2060\ufeff"
def fine(s): return "--" not in "".join(c for c in s if c not in IGN) and not any(0xD800 <= ord(c) <= 0xDFFF for c in s)
def parse(s, base=None, e=UTF8): return {"line": f"1 {e} {int(base is not None)} " + (ints(base) + " " if base is not None else "") + ints(s), "parse": s, "base": base, "enc": e}
def hist(s, ops): return {"line": f"2 {ints(s)} {len(ops)} " + " ".join(f"{k} {ints(v)}" for k, v in ops), "url": s, "set": ops}
def host(ns, s): return {"line": f"3 {int(ns)} {ints(s)}", "host": s, "notspecial": bool(ns)}
def addr(v): return {"line": "4 " + ints(v), "addr": v}
def penc(e, k, plus, s): return {"line": f"5 {e} {k} {int(plus)} {ints(s)}", "penc": k, "enc": e, "in": list(s)[:40]}
def eq(a, b): return {"line": f"8 {ints(a)} {ints(b)}", "eq": [a, b]}

SCHEMES = ["http:", "https:", "ftp:", "ws:", "wss:", "file:", "a:", "HTTP:", "FiLe:", "data:", "javascript:", "mailto:", "a+b-1.c:", "1a:", ":", "", "htt p:", "b-:", "fil:", "files:", "h\u00e9:"]
SLASHES = ["", "/", "//", "///", "\\", "\\\\", "/\\", "\\/", "////"]
CREDS = ["", "u@", "u:p@", ":p@", ":@", "@", "u:@", "a@b@", "u:p:q@", "%40:%3a@", "u /", "\u00e9:\U0001f4a9@", "u;=[]^|@", "<>`{}@", "a:b@c:d@"]
HOSTS = ["h", "example.com", "EXAMPLE.com", "1.2.3.4", "0x7f.1", "256", "1.2.3.256", "4294967295", "4294967296", "08", "017", "1.", "1.2.3.4.", "1.2.3.4.5", "1..2", "0x", "0X1F.0", ".", "a..b", "h.",
         "[::1]", "[1:2:3:4:5:6:7:8]", "[::1.2.3.4]", "[::", "[]", "[::g]", "[1::0:0:2:0:0:0]", "localhost", "LOCALHOST", "loc%61lhost", "C:", "C|", "c|x", "a%41", "a%20b", "a b", "a%00", "a%2fb", "a<b", "a>b", "a^b", "a|b", "a%b", "%", "%zz",
         "\u3042\u3044.net", "fa\u00df", "B\u00dccher.de", "\uff11.\uff12", "\uff25x", "\u212a", "a\u3002b", "\xad", "\u200b", "\uff05\uff14\uff11", "\ufffd", "%ff", "%c3%bc", "\U0001f4a9", "-a-", "a_b", "a\x7fb", "a\x01b", "a%7f", "a%01", "\x80", "h\tx", "*", "!$&'()+,;="]
PORTS = ["", ":", ":80", ":443", ":21", ":0", ":00080", ":65535", ":65536", ":99999999999999999999", ":8a", ":a", ": 8", ":8080", ":-1", ":000000000000000443", ":65535\\", ":1:2"]
PATHS = ["", "/", "/a", "/a/b/", "/.", "/..", "/./", "/../", "/a/../b", "/a/./b", "/%2e", "/%2E%2e/x", "/.%2E", "/%2e.", "//", "///a", "/a//..//b", "/C:", "/C|", "/C|/", "/c:/..", "/C|/../..", "/C:/D|", "/Cx", "a b", "/a b\"#", "/`{}<>?'", "/\u00e9", "/\\a\\..\\b", "\\", "/%zz%", "/|", "/a/..", "/a/b/..", "/..//a", "/.//a", "//a/..", " ", "/ ", "/a\tb\nc", "/^[]", "/...", "/.a", "/%2e%2e%2e"]
QUERIES = ["", "?", "?q", "?a=b&c", "?'\"<> `", "?\u00e9", "?%zz", "??", "?/", "?\u3042\u4e2d", "? ", "?\U0001f4a9"]
FRAGS = ["", "#", "#f", "#a b\"<>`'", "#\u00e9", "##", "#?/", "# ", "#\x00"]
RELS = ["", "x", "/x", "//x", "///x", "/", "?y", "#z", "..", ".", "../..", "../../../x", "./x", "http:x", "http:/x", "http://x", "http:", "http:?q", "http:#f", "file:", "file:x", "file:/x", "file://x", "file:///x", "file:?q", "file:#f", "a:x", "\\x", "\\\\x", "/\\x", "C|", "C:", "/C|", "/C:/x", "C|/x",
        "C|?x", "/C|#y", "C|x", "x:y", "..#z", "?", "#", " x ", "//", "////x", "x/../..", "https:x", "//C|", "//C|/y", "//C:/y", "/..", "/../C|/..", "\t/\tx", ":", ":80", "//u:p@x:81/", "@", "x?y#z", "..?q", "http:..", "file:..", "file:C|", "file:/C|/.."]
BASES = ["http://u:p@h:8/a/b?q#f", "http://h", "https://h/a/b/c", "file:///C:/x/y", "file:///C:", "file://h/y/z", "file:///", "file:///a/b?q", "a:opaque", "a:opaque?q#f", "a:/p/q", "a://h", "a://u@h:1/p?q", "a:/", "a:///x", "ws://x/y", "a:/.//p", "mailto:x@y", "nope", "ftp://1.2.3.4/a/../b"]
TOK = ["http:", "file:", "a:", "/", "/", "\\", "?", "#", "@", ":", "..", ".", "x", "C|", "[::1]", " ", "%2e", "0x7f", "[", "]", "|", "%", "\u00e9", "\t", "8", "80", "//", "D:", "\U0001f4a9", "'", "\"", "^", "localhost", "\x00", "\x7f", "+", "-", "1."]

def urltext(r):
    m = r.random()
    if m < .6:
        s = r.choice(SCHEMES[:7] if r.random() < .7 else SCHEMES) + (r.choice(["//", "//", "///", "/", ""]) if r.random() < .8 else r.choice(SLASHES))
        if r.random() < .35: s += r.choice(CREDS)
        if r.random() < .85: s += r.choice(HOSTS)
        if r.random() < .35: s += r.choice(PORTS)
        for _ in range(r.choice([0, 1, 1, 2])): s += r.choice(PATHS)
        if r.random() < .4: s += r.choice(QUERIES)
        if r.random() < .4: s += r.choice(FRAGS)
    else: s = "".join(r.choice(TOK) for _ in range(r.randint(1, 9)))
    if r.random() < .15:
        k = r.randrange(len(s) + 1); s = s[:k] + r.choice(["\t", "\n", "\r", " ", "\x00", "\x1f", "/", "\\", ":", "@", "?", "#", "%", "[", "."]) + s[k:]
    if r.random() < .07: s = r.choice([" ", "\t", "\x00", "\x1f \n"]) + s + r.choice(["", " ", "\n", "\x01"])
    return s
def goodurl(r):
    """mostly valid"""
    s = r.choice(["http:", "https:", "ftp:", "file:", "ws:", "a:", "a:", "data:"])
    h = r.choice(["h", "example.com", "1.2.3.4", "[::1]", "[1::2]", "localhost", "a.b", "\u3042.net", "10.0.1"])
    if s in ("file:",): s += r.choice(["//" + r.choice(["", "", h]), "/", ""])
    elif s in ("a:", "data:"): s += r.choice(["//" + r.choice(["", h, "u@" + h, h + ":9"]), "", "", "/."])
    else: s += "//" + r.choice(["", "", "u@", "u:p@", ":p@"]) + h + r.choice(["", "", ":8080", ":80", ":443"])
    s += r.choice(["", "/", "/a/b", "/C:/x", "/C|", "//x", "/..//", "/a b", "/\u00e9"]) if not s.endswith((":",)) else r.choice(["opaque", "opaque  ", "x y ", "/p", "/", "", "..", "//h"])
    return s + r.choice(["", "", "?", "?q", "?a'b"]) + r.choice(["", "", "#", "#f", "# "])

def uniq(cases, txt=lambda c: True):
    seen, out = set(), []
    for c in cases:
        if c["line"] in seen: continue
        seen.add(c["line"]); out.append(c)
    return out

def C20(ctx):
    exe = build("url", LIBS); check_model(ctx, "UrlMC", None if ctx.quick else "UrlMCdeep.cfg"); r = ctx.rng
    if not ctx.quick: check_model(ctx, "UrlMC", "UrlMCwide.cfg")
    cases = []
    for a in SCHEMES:                                   # each list swept in the context of the others' simplest
        for b in SLASHES:
            for c in ("", "h", "h/p", "u@h:1/p?q#f"): cases.append(parse(a + b + c))
    for s in ("http://", "file://", "a://", "ws://"):
        for h in HOSTS:
            for c in ("", ":81/x", "/C|/y"): cases.append(parse(s + h + c))
        for p in PORTS: cases += [parse(s + "h" + p), parse(s + "h" + p + "/x")]
        for c in CREDS: cases += [parse(s + c + "h"), parse(s + c + "h:1"), parse(s + c + "/p")]
    for s in ("http://h", "file://", "file://h", "a:", "a://h", "a://", "a:x", "file:"):
        for p in PATHS: cases += [parse(s + p), parse(s + p + "?q#f")]
        for p in PATHS if not ctx.quick else r.sample(PATHS, 20):
            for q in r.sample(PATHS, 4 if ctx.quick else 40): cases.append(parse(s + p + q))
        for q in QUERIES:
            for f in FRAGS: cases.append(parse(s + "/" + q + f))
    for e in ENCS:
        for q in QUERIES + ["?\u20ac\xa5\u203e", "?\u3042\x1b\u4e2d'"]:
            for s in ("http://h", "ws://h", "a:x", "file:"): cases.append(parse(s + q, None, e))
    for b in BASES:
        for x in RELS: cases.append(parse(x, b))
    for _ in range(2500 if ctx.quick else 60000): cases.append(parse(urltext(r), None if r.random() < .7 else r.choice(BASES + [goodurl(r)]), UTF8 if r.random() < .85 else r.choice(ENCS)))
    for _ in range(1200 if ctx.quick else 25000):
        b = r.choice(BASES) if r.random() < .6 else goodurl(r)
        cases.append(parse("".join(r.choice([r.choice(RELS), r.choice(TOK), r.choice(PATHS)]) for _ in range(r.randint(1, 3))), b))
    cases = uniq([c for c in cases if fine(c["parse"]) and fine(c["base"] or "")])
    ctx.extra["rule"] = "every scheme, slash form, authority, host, port, path, query and fragment of the lists in context, every relative reference against every base, random compositions and token strings, also in other output encodings"
    conformance(ctx, exe, "UrlTrace", cases, corrupt=corrupt, env=ENV, ncanary=16)

VALUES = {0: ["http", "https", "ftp", "file", "a", "b", "ws", "http:", "https:x", "1", "", "a b", "FILE:", "wss:/", "a+.-", "\thttps", "h\u00e9"],
          1: ["", "u", "u:v", "\u00e9", "a@b", "/", "%41", " ", "x\ty", "#?"], 2: ["", "p", ":p", "\u00e9", "a@b", "/", "%41", " ", "\n"],
          3: ["", "x", "x:9", "x:80", "x:443", "x:99999", "x:a", "x:", "x/y", "x?q", "x#f", "x\\y", "[::1]:9", "[::2]", "1.2.3", "0x7f.1", "a b", "@", "u@x", ":9", "localhost", "C|", "X.Y", "\u3042", "x\n.y", "[", "8", "c:", "256.1.1.1", "x:8y", "\t"],
          5: ["", "80", "443", "21", "9", "65535", "65536", "00080", "8a", "a8", ":9", "0", "9/x", "99999999999", " 9", "\t9", "9\n1", "9?", "8080", "-1", "000000000"],
          6: ["", "/", "a", "/a/b", "..", "/..", "//", "//x", "///", "/a/../b", "/.", "C|", "/C|/..", "/C:/x", "a?b", "a#b", "\\a\\b", "a b\u00e9", "%2e%2e", "\t/x", "/%2e/", "?", "/..//x", ".", "/./", "{}`<>"],
          7: ["", "?", "q", "?q", "??", "a'b\"<>", "#", "\u00e9", "a b ", "\t", "?a=b&c", "\n?x"], 8: ["", "#", "f", "#f", "##", "a`b\"<> ", "\u00e9", "?", "\t", "\r#x", "\x00"],
          9: []}
VALUES[4] = VALUES[3]

def history(r, n):
    ops = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 6, 6, 7, 8, 9])
        v = r.choice([goodurl(r), goodurl(r), urltext(r)]) if k == 9 else r.choice(VALUES[k]) if r.random() < .85 else "".join(r.choice(TOK) for _ in range(r.randint(0, 4)))
        if not fine(v): continue
        ops.append((k, v))
    return ops
STARTS = ["http://h", "http://u:p@h:8/a?q#f", "https://[::1]:9/", "ftp://1.2.3.4/x", "file:///", "file:///C:/x", "file://h/y", "file://1.2.3.4/", "file://[::1]/", "a:opaque", "a:opaque  ?q#f", "a:opaque  #f", "a:opaque  ?q", "a:/x", "a:/", "a://h", "a://", "a://h:9", "a:///x", "a:/.//x", "ws://u@x/", "a://u@[::1]/", "a:"]

def C24(ctx):
    exe = build("url", LIBS); check_model(ctx, "UrlMC", None if ctx.quick else "UrlMCdeep.cfg"); r = ctx.rng
    cases = []
    for s in STARTS:
        for k in VALUES:
            vs = VALUES[k] or ["x", "http://y/z", "a:b", "", "//x"]
            for v in vs: cases.append(hist(s, [(k, v)]))
    for _ in range(900 if ctx.quick else 25000):
        s = r.choice(STARTS) if r.random() < .4 else goodurl(r)
        if fine(s): cases.append(hist(s, history(r, r.randint(2, 5 if ctx.quick else 9))))
    ctx.extra["rule"] = "every setter with every listed value on every starting URL, random histories of setters"
    conformance(ctx, exe, "UrlTrace", uniq(cases), corrupt=corrupt, env=ENV, ncanary=16)

def C21(ctx):
    exe = build("url", LIBS); check_model(ctx, "UrlMC", None if ctx.quick else "UrlMCdeep.cfg"); r = ctx.rng
    cases = []
    for s in ("a:", "a:/", "a://", "a://h", "file:", "file://", "file:///", "http://h"):
        for p in PATHS:
            for q in ("", "?", "?q "):
                for f in ("", "#", "# f"): 
                    if not ctx.quick or r.random() < .5: cases.append(parse(s + p + q + f))
    for _ in range(1200 if ctx.quick else 30000):
        s = goodurl(r) if r.random() < .5 else urltext(r); cases.append(parse(s, None if r.random() < .8 else r.choice(BASES)))
    for _ in range(500 if ctx.quick else 12000):          # histories aimed at what serialisation must keep apart
        ops = []
        for _ in range(r.randint(1, 5)):
            k = r.choice([3, 4, 6, 6, 6, 7, 8, 0])
            v = r.choice({3: ["", "x", "[::1]", "1.2"], 4: ["", "x", "localhost"], 6: ["", "/", "//", "//x", "/.", "/..", "/..//x", "C|", "/C|", "x", ".", "///", "/.//", "/%2e//p"], 7: ["", "?", "q "], 8: ["", "#", "f "], 0: ["b", "https", "ws", "a"]}[k]); ops.append((k, v))
        cases.append(hist(r.choice(STARTS), ops))
    eqs = []
    pool = ["http://h", "http://h/", "HTTP://H:80/", "http://h/#", "http://h/?", "http://h/?#", "http://h/#f", "http://h:81/", "http://u@h/", "http://u:@h/", "http://@h/", "http://h/a/..", "http://h/%2e", "a:b", "a:b#", "a:b?", "a://", "a:///", "a:/", "a:/.//b", "file:///", "file://localhost/", "file:", "file:///C|", "file:///C:", "http://0x7f.1/", "http://127.0.0.1/", "http://[::1]/", "http://[0:0::1]/", "http://\uff48/", "nope", "http://h/\u00e9", "http://h/%C3%A9", "http://h/%c3%a9"]
    for a in pool:
        for b in pool: eqs.append(eq(a, b))
    for _ in range(100 if ctx.quick else 3000):
        a = goodurl(r); eqs.append(eq(a, r.choice([a, a + "#x", goodurl(r), a.upper(), a.replace("//", "\\\\")])))
    cases += eqs
    def ok(c): return all(fine(x) for x in ([c["parse"], c["base"] or ""] if "parse" in c else c["eq"] if "eq" in c else [c["url"]] + [v for _, v in c["set"]]))
    ctx.extra["rule"] = "paths, empty parts and trailing spaces crossed with every kind of URL, random URLs, histories of assignments aimed at serialisation, all pairs of a pool of URLs for equality"
    conformance(ctx, exe, "UrlTrace", uniq([c for c in cases if ok(c)]), corrupt=corrupt, env=ENV, ncanary=16)

def C22(ctx):
    exe = build("url", LIBS); check_model(ctx, "UrlMC"); r = ctx.rng
    cases = []
    for h in HOSTS: cases += [host(1, h), host(0, h)]
    num = ["0", "1", "255", "256", "0x", "0xff", "0x100", "0377", "0400", "08", "00", "65535", "65536", "0xffff", "0x10000", "16777215", "16777216", "0xffffff", "4294967295", "4294967296", "037777777777", "040000000000", "0xffffffff", "0x100000000", "99999999999999999999", "0x1g", "1a", "", "-1", "+1", " 1", "0X1F", "00x1", "018", "007", "09", "0x00000000000000000001", "00000000000000000000377", "1e1"]
    for a in num:
        for f in ("{}", "{}.", "{}..", ".{}", "{}.1", "1.{}", "1.{}.", "1.2.{}", "1.2.3.{}", "1.2.3.4.{}", "{}.x", "x.{}"): cases.append(host(0, f.format(a)))
        cases.append(host(1, a))
    for _ in range(600 if ctx.quick else 20000): cases.append(host(0, ".".join(r.choice(num) for _ in range(r.randint(1, 5))) + r.choice(["", "", "."])))
    v6 = ["0", "1", "ffff", "FFFF", "abcd", "00001", "0001", "10000", "g", "", "::", ":", "1.2.3.4", "255", "256.0.0.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "0.0.0.0", "1.2.3.256", "1.", "."]
    for n in range(0, 10):
        base = ["1"] * n
        cases.append(host(0, "[" + ":".join(base) + "]"))
        for k in range(n + 1):
            cases.append(host(0, "[" + ":".join(base[:k]) + "::" + ":".join(base[k:]) + "]"))
            cases.append(host(0, "[" + ":".join(base[:k]) + "::" + ":".join(base[k:] + ["1.2.3.4"]) + "]"))
        cases.append(host(0, "[" + ":".join(base + ["9.8.7.6"]) + "]"))
    for _ in range(1500 if ctx.quick else 40000):
        m = r.random()
        if m < .4: s = ":".join(r.choice(["0", "0", "1", "ab", "ffff", "0a"]) for _ in range(r.randint(1, 9)))
        elif m < .7: 
            a, b = r.randint(0, 7), r.randint(0, 7); s = ":".join(r.choice(["0", "1", "2f", "0000"]) for _ in range(a)) + "::" + ":".join(r.choice(["0", "1", "2f"]) for _ in range(b))
        else: s = ":".join(r.choice(v6) for _ in range(r.randint(1, 9)))
        if r.random() < .25: s += r.choice([":", ""]) + r.choice(["1.2.3.4", "0.0.0.0", "255.255.255.255", "1.2.3", "1.2.3.4.", "01.2.3.4", "1..2.3", "1.2.3.4.5", "1.2.3.256", "a.2.3.4", "12345.1.1.1", "1.2.3.4x", "1.2.3.4:5"])
        if r.random() < .08: k = r.randrange(len(s) + 1); s = s[:k] + r.choice(":.0g] ") + s[k:]
        cases.append(host(r.random() < .5, "[" + s + ("]" if r.random() < .96 else "")))
    pieces = [0, 0, 0, 1, 15, 16, 255, 256, 4095, 4096, 65535]
    for m in range(256): cases.append(addr([0 if m >> i & 1 else r.choice(pieces[3:]) for i in range(8)]))
    for _ in range(200 if ctx.quick else 5000): cases.append(addr([r.choice(pieces + [r.randrange(65536)]) for _ in range(8)])); cases.append(addr([r.choice([0, 1, 9, 10, 99, 100, 127, 128, 255, r.randrange(256)]) for _ in range(4)]))
    # opaque hosts and domains: every ASCII code point in several positions, and the table of others
    oth = [0x80, 0x9f, 0xad, 0xdc, 0xdf, 0xe4, 0xe9, 0xf6, 0xfc, 0x200b, 0x2060, 0x212a, 0x3002, 0x3042, 0x3051, 0x4e2d, 0x56fd, 0x65e5, 0x672c, 0xe000, 0xfdd0, 0xfeff, 0xff05, 0xff0e, 0xff10, 0xff19, 0xff21, 0xff3a, 0xff41, 0xff5a, 0xff61, 0xfffd, 0x200e, 0x1f4a9]
    for c in list(range(128)) + oth:
        for f in ("{}", "a{}", "{}b", "a{}b", "1{}2", "a.{}.b"):
            s = f.format(chr(c)); cases += [host(1, s), host(0, s)]
        if c < 128: cases += [host(0, f"a%{c:02x}b"), host(1, f"a%{c:02X}b"), host(0, f"%{c:02X}")]
    lab = [chr(c) for c in oth if 0xdc <= c <= 0xfc or 0x3042 <= c <= 0x672c or c == 0x1f4a9] + list("abz019-")
    for _ in range(400 if ctx.quick else 8000):
        cases.append(host(0, r.choice([".", "\u3002", ""]).join("".join(r.choice(lab) for _ in range(r.randint(1, 8))) for _ in range(r.randint(1, 3)))))
    for n in (62, 63, 64, 65, 250, 256, 300): cases += [host(0, "a" * n), host(0, "a" * n + ".b"), host(0, "\u3042" * min(n, 90)), host(1, "a" * n), host(0, ".".join(["ab"] * n))]
    cases = [c for c in cases if ("host" not in c) or (fine(c["host"]) and (c["notspecial"] or c["host"]))]
    for _ in range(500 if ctx.quick else 10000): cases.append(host(0, r.choice([".", ".", "\u3002"]).join(label(r) for _ in range(r.choice([1, 1, 2, 3]))) + r.choice(["", "", "", "."])))
    # hosts compared: of one kind and of different kinds, alike and nearly alike
    hs = [(0, x) for x in ("1.2.3.4", "0x1020304", "1.2.3.5", "2.2.3.4", "0", "1", "255.255.255.255", "[::]", "[::1]", "[0:0:0:0:0:0:0:1]", "[1::]", "[::1:0]", "[1:2:3:4:5:6:7:8]", "[1:2:3:4:5:6:7:9]", "[::ffff:1.2.3.4]", "[::1.2.3.4]", "a", "A", "b", "a.b", "a.b.", "ab", "a%62", "localhost", "\u3042", "xn--l8j", "1.2.3.4x", "a<b", "[1")]
    hs += [(1, x) for x in ("", "a", "A", "b", "1.2.3.4", "1.2.3.5", "%61", "[::1]", "[::]", "[::1.2.3.4]", "\u3042", "%E3%81%82", "xn--l8j", "a b", "localhost", "1")]
    for a in hs:
        for b in hs: cases.append({"line": f"13 {a[0]} {ints(a[1])} {b[0]} {ints(b[1])}", "hosts": [a, b]})
    cases = uniq(cases)
    ctx.extra["rule"] = "number forms in every part of dotted hosts, IPv6 texts with every count of pieces and place of compression, every zero pattern of IPv6 addresses, every ASCII code point and a table of others in domains and opaque hosts, random ones"
    conformance(ctx, exe, "UrlTrace", cases, corrupt=corrupt, env=ENV, ncanary=16)

def scalar(r):
    while True:
        c = r.choice([r.randrange(0x80), r.randrange(0x80), r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000), r.choice([0, 0x1f, 0x20, 0x25, 0x7e, 0x7F, 0x80, 0xff, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF])])
        if not 0xD800 <= c <= 0xDFFF: return c
def C23(ctx):
    exe = build("url", LIBS); check_model(ctx, "UrlMC"); r = ctx.rng
    cases = [{"line": "6 0 1024", "member": [0, 1024]}] + [{"line": f"6 {a} {a + 64}", "member": [a, a + 64]} for a in (0xd7c0, 0xffc0, 0x10000, 0x10ffc0)]
    for k in range(8):
        for plus in (0, 1):
            for a in range(0, 256, 16): cases.append(penc(1, k, plus, range(a, a + 16)))
            for e in ENCS:
                if e in (37, 38, 39): continue
                for _ in range(3 if ctx.quick else 60):
                    cases.append(penc(e, k, plus, [r.choice([scalar(r), r.choice([0x20, 0x25, 0x26, 0x3b, 0x23, 0x41, 0x7e, 0xa5, 0xe9, 0x203e, 0x20ac, 0x3042, 0x4e2d, 0xff61, 0x1f4a9, 0x1b, 0x0e, 0x5c])]) for _ in range(r.randint(0, 14))]))
    esc = ["%", "%4", "%41", "%zz", "%g1", "%1g", "%%", "%00", "%ff", "%FF", "%aF", "%C3%A9", "a", "+", "4", "1", " ", "\u00e9", "%2", "%25", "%2525", "%:0", "%@1", "%/9", "%`a", "%Gf", "\U0001f4a9", "\u3042"]
    for _ in range(800 if ctx.quick else 20000): cases.append({"line": "7 " + ints("".join(r.choice(esc) for _ in range(r.randint(0, 8))))})
    for a in range(128):
        cases.append({"line": "7 " + ints("%" + chr(a) + "1%1" + chr(a) + "%" + chr(a))})
    if not ctx.quick:
        for a in range(128):
            for b in range(128): cases.append({"line": "7 " + ints("%" + chr(a) + chr(b))})
    ctx.extra["rule"] = "membership of every code point below 1024 and of boundary ranges in every set, all bytes through every set, texts in every output encoding, escape sequences well and ill formed"
    conformance(ctx, exe, "UrlTrace", uniq(cases), corrupt=corrupt, env=ENV, ncanary=16)

def ve(s, base=None, e=UTF8): return {"line": f"9 {e} {int(base is not None)} " + (ints(base) + " " if base is not None else "") + ints(s), "parse": s, "base": base, "enc": e}
def hve(ns, s): return {"line": f"10 {int(ns)} {ints(s)}", "host": s, "notspecial": bool(ns)}
def corrupt_ve(ev, r):
    e = r.choice(ev)
    if e["op"] == "cps": i = r.randrange(len(e["m"])); e["m"][i] ^= 1; return True
    if not e["ok"]: e["ok" if r.random() < .5 else "err"] ^= True; return e.get("bok", True)
    e["err"] ^= True; return True
VHOSTS = ["h", "example.com", "1.2.3.4", "127.0.0.1", "[::1]", "[1:2:3:4:5:6:7:8]", "\u3042.net", "a-b.c", "256.x", "1.2.3.4.5", "0x.y", "h.", "255", "0", "01.x", "a.1", "b\u00fccher.de", "0.0.0.0", "10.1", "%41"]
def validurl(r):
    """a text that is mostly valid: no validation error is raised"""
    k = r.choice(["http", "https", "ws", "file", "a", "a", "op"]); h = r.choice(VHOSTS)
    p = "".join(r.choice(["/", "/a", "/b.c", "/..", "/.", "/%41", "/%e3%81", "/\u3042", "/a;b=c", "/!$&'()*+,-._~", "/x:y@z", "/\U0001f4a9"]) for _ in range(r.randint(0, 3)))
    if k == "op": s = r.choice(["a:", "data:", "mailto:"]) + r.choice(["x", "x@y", "a/b", "%41b", "\u3042", "", "a:b", "(')"])
    elif k == "a": s = "a:" + r.choice(["//" + r.choice([h, "", h + ":9", "x%41", "x!", "x\u3042"]), "/p", "/"]) + p
    elif k == "file": s = "file://" + r.choice(["", "", h]) + r.choice(["/C:", "/C:/x", "/", ""]) + p
    else: s = k + "://" + h + r.choice(["", "", ":80", ":8080", ":"]) + p
    return s + r.choice(["", "", "?", "?q", "?a=b&c=%20", "?\u00e9?/"]) + r.choice(["", "", "#", "#f", "#%41", "#\u00e9", "#?/"])
ODD = ["\\", "/", "//", "@", "u@", "u:p@", " ", "\t", "\n", "\x00", "\x1f", "\x7f", "\x80", "\x9f", "\xa0", "%", "%4", "%zz", "%4z", "%z4", "%g", "%%41", "|", "\"", "<", ">", "`", "{", "}", "^", "[", "]", "#", "?", ":", "C|", "C:", "0x1", "00", "256", ".", "\ufdd0", "\ufdef", "\ufffe", "\uffff", "\U0001fffe", "\U0010fffd", "\U0010ffff", "\ufffd", "\ue000", "'", "~", "_", "!"]

def C28(ctx):
    exe = build("url", LIBS); check_model(ctx, "UrlVeMC", None if ctx.quick else "UrlVeMCdeep.cfg"); r = ctx.rng
    cases = []
    for a in SCHEMES[:9]:
        for b in SLASHES:
            for c in ("", "h", "h/p", "h:1/p?q#f", "1.2.3.4", "C|/x", "C:/x", "C:"): cases.append(ve(a + b + c))
    for s in ("http://", "file://", "a://", "ws://"):
        for h in HOSTS + VHOSTS: cases += [ve(s + h), ve(s + h + "/x"), ve(s + h + ":81/")]
        for p in PORTS: cases += [ve(s + "h" + p), ve(s + "h" + p + "/x")]
        for c in CREDS: cases += [ve(s + c + "h")]
    for b in (None, "http://h/", "file:///C:/x", "a:/p", "a:opaque"):
        for c in ODD + [chr(x) for x in range(0x21, 0x7f)]:      # one odd text in every component of an otherwise valid reference
            for f in ("http://h/{}", "http://h/x{}y", "http://h/x{}1a", "a:x{}1a", "a:/x{}y", "a:/x{}12", "http://h?{}y", "http://h?x{}ab", "a:x?{}", "a:x?{}e", "http://h#{}y", "http://h/#x{}1", "a:#x{}c1", "a://x{}y", "a://{}ab", "a://x{}", "http://h/{}/", "file:///{}/x", "http:{}//h", "http:/{}/h", "http://{}h", "{}x", "/{}x", "x{}y", "?{}y", "#{}1f", "file:{}", "file:/{}", "file://{}", "http:{}", "{}http://h/", "http://h/{}", "http://h{}", "x/y{}", "//{}x"):
                if b is None and f.startswith(("{}x", "/", "x", "?", "#")): continue
                if b is not None and ctx.quick and r.random() < .75: continue
                cases.append(ve(f.format(c), b))
    for b in BASES:
        for x in RELS: cases.append(ve(x, b))
    for _ in range(2500 if ctx.quick else 60000):
        s = validurl(r)
        for _ in range(r.choice([0, 0, 1, 1, 1, 2])): k = r.randrange(len(s) + 1); s = s[:k] + r.choice(ODD) + s[k + r.choice([0, 0, 0, 1]):]
        cases.append(ve(s, None if r.random() < .7 else r.choice(BASES), UTF8 if r.random() < .9 else r.choice(ENCS)))
    for _ in range(800 if ctx.quick else 20000): cases.append(ve(r.choice([urltext, goodurl])(r), None if r.random() < .7 else r.choice(BASES)))
    hosts = HOSTS + VHOSTS + ["x" + o + y for o in ODD for y in ("", "1", "1a", "1ag", "z")] + [o + "41" for o in ODD]
    for h in hosts: cases += [hve(1, h), hve(0, h)]
    for c in list(range(0x20, 0x100)) + [0xfdcf, 0xfdf0, 0x1fffd, 0x20000, 0xfffff, 0xffffe, 0x100000]: cases += [hve(1, "x" + chr(c)), ve("a://x" + chr(c) + "/")]
    num = ["0", "1", "255", "256", "0x", "0xff", "0377", "08", "00", "65536", "16777216", "4294967295", "4294967296", "x", ""]
    for _ in range(300 if ctx.quick else 5000): cases.append(hve(0, ".".join(r.choice(num if r.random() < .5 else num[:4]) for _ in range(r.randint(1, 5))) + r.choice(["", "", "."])))
    cases = uniq([c for c in cases if (fine(c["host"]) and (c["notspecial"] or c["host"]) if "host" in c else fine(c["parse"]) and fine(c["base"] or ""))])
    step = 4096
    rng = range(0, 0x110000, step) if not ctx.quick else [0, 0xd000, 0xe000, 0xf000] + [p * 65536 + 0xf000 for p in range(1, 17)] + [p * 65536 for p in range(1, 17)]
    cases += [{"line": f"11 {a} {a + step}", "cps": a} for a in rng]
    ctx.extra["rule"] = "every scheme, slash form, host and port of the lists, one odd text in every component of otherwise valid absolute and relative references, random near-valid texts with and without base, hosts of both kinds, URL code points"
    conformance(ctx, exe, "UrlVeTrace", cases, corrupt=corrupt_ve, env=ENV, ncanary=16)

def write(s): return {"line": "12 " + ints(s), "text": s}
TABLE = "\xb7\xdf\xe4\xe9\xf6\xfc\u3042\u3046\u304b\u3050\u30fb\u4e2d\u56fd\u65e5\u672c\U0001f4a9\u0915\u05d0\u05d1"
def ace(s): return "xn--" + s.encode("punycode").decode()
def label(r):
    m = r.random()
    if m < .2: return "".join(r.choice("abz019-") for _ in range(r.randint(1, 6)))
    s = "".join(r.choice(TABLE[:16] if m < .7 else TABLE) if r.random() < .6 else r.choice("ab1-") for _ in range(r.randint(1, 5)))
    if r.random() < .2: k = r.randrange(len(s) + 1); s = s[:k] + r.choice(["\u0915\u094d", "\u094d", "\u200d", "\u0915\u094d\u200d", "\u200c", "\u0915\u094d\u200cb"]) + s[k:]
    if r.random() < .15: s = "".join(r.choice(["\u05d0", "\u05d1", "\u05d2", "1", "2", "-", "a", "+"]) for _ in range(r.randint(1, 4)))
    if r.random() < .35 and any(ord(c) > 127 for c in s): s = ace(s)
    elif r.random() < .1: s = r.choice([s.upper(), s + "\xad", "\u200b" + s, s + "\ufffd", s + "\xa0", s + "\uff05", "\uff21" + s])
    if r.random() < .06: s = r.choice(["xn--" + s, "XN--" + s, "xn--a-\u3042", ace("\xdc"), ace("a\ufffd"), ace("\u094d"), ace("a\u200db"), ace("\uff21"), "xn--99999999", "xn--a-9999zzzz", "xn---abc", "xn--!", "xn--a b-gka", ace("_\xe4"), ace("\xe4 b"), "xn--zzzzzzzzzz99", ace("\xad"), "xN--l8jegik", "xn--L8JEGIK", ace("A\xe4")])
    return s
def corrupt_w(ev, r):
    e = r.choice(ev)
    if e["op"] == "host": return corrupt(ev, r)
    e[r.choice(["v4", "v6", "opaque", "kept", "back"])] ^= True; return True
WIDE = [chr(c) for c in range(128)] + list(TABLE) + list("\x80\x9f\xa0\xad\xdc\u200b\u200c\u200d\u200e\u2060\u212a\u3002\u094d\ue000\ufdd0\ufeff\uff05\uff0e\uff10\uff19\uff21\uff3a\uff41\uff5a\uff61\ufffd\ufffe\U0001fffe\U0010fffd\U0010ffff")
def C30(ctx):
    exe = build("url", LIBS); r = ctx.rng
    d = "" if ctx.quick else "deep"
    check_models(ctx, [("HostWriteMC", f"HostWriteMC_{k}{d}.cfg") for k in ("dom", "v4", "v6", "op")], par=4)
    T = []
    for c in WIDE:
        for f in ("{}", "a{}", "{}b", "a{}b", "1{}2", "a.{}.b", "1.2.3.{}", "1.2.3.4{}", "{}1.2.3.4", "1.2{}.3.4", "[::1{}]", "::{}", "1{}2:3:4:5:6:7:8", "x%{}1", "x%4{}", "%41{}", "\u05d0{}", "\u05d0{}\u05d0", "{}.\u05d0", "\u3042{}", "xn--{}", "xn--a-gka{}"): T.append(f.format(c))
    num = ["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "00", "01", "001", "0255", "025", "0x1", "", "-1", "+1", " 1", "1 ", "1a", "a", "\uff11", "\u0131", "1e1", "0000", "4294967295", "4294967296", "18446744073709551617"]
    for a in num:
        for f in ("{}", "{}.0.0.1", "1.{}.3.4", "1.2.{}.4", "1.2.3.{}", "1.2.3.{}.", "1.2.{}", ".1.2.3.{}", "1.2.3.4.{}", "1..2.{}", "::{}.2.3.4", "::1.2.3.{}", "[::1.{}.3.4]", "1:2:3:4:5:6:{}.1.1.1", "{}:2:3:4:5:6:7:8", "::{}", "{}::", "1::{}"): T.append(f.format(a))
    for n in range(256): T.append(f"{n}.{255 - n}.0.{n}")
    for n in range(0, 10):
        b = ["1"] * n
        for k in range(n + 1):
            for t in ([], ["1.2.3.4"]):
                x = ":".join(b[:k]) + "::" + ":".join(b[k:] + t); T += [x, "[" + x + "]"]
        for t in ([], ["9.8.7.6"]): x = ":".join(b + t); T += [x, "[" + x + "]", x + ":", ":" + x]
    for _ in range(500 if ctx.quick else 15000): T.append(".".join(r.choice(num if r.random() < .3 else num[:11]) for _ in range(r.choice([3, 4, 4, 4, 4, 5]))))
    v6 = ["0", "1", "ffff", "FFFF", "aBcD", "00001", "0001", "g", "", "::", "1.2.3.4", "256.0.0.1", "01.2.3.4", "0.0.0.0"]
    for _ in range(900 if ctx.quick else 25000):
        if r.random() < .5: a = r.randint(0, 8); x = ":".join(r.choice(v6[:5]) for _ in range(a)) + r.choice(["::", "", ":"]) + ":".join(r.choice(v6[:5]) for _ in range(r.randint(0, 8 - a)))
        else: x = ":".join(r.choice(v6) if r.random() < .2 else r.choice(v6[:5]) for _ in range(r.randint(5, 9)))
        if r.random() < .2: x += r.choice(["1.2.3.4", ":1.2.3.4", ":1.2.3", ":1.2.3.4.5"])
        T.append(x if r.random() < .6 else "[" + x + r.choice(["]", "]", "]", "", "]]"]))
    ops = ["a", "b", "%", "%4", "%41", "%fF", "%g0", "[", "]", "::1", ":", "/", "?", "@", "~", "_", "!", "$", "*", "'", "\"", "<", " ", "\xe9", "\xa0", "\x9f", "\ufffe", "\ud7ff", "\ue000", "\U0010fffd", "|", "^", "\\", "#", "{", "`"]
    for _ in range(700 if ctx.quick else 15000): T.append("".join(r.choice(ops if r.random() < .35 else ops[:2] + ops[4:6] + ops[14:20]) for _ in range(r.randint(1, 7))))
    D = []
    for _ in range(2200 if ctx.quick else 60000): D.append(r.choice([".", ".", "\u3002", "\uff0e"]).join(label(r) for _ in range(r.choice([1, 1, 2, 2, 3]))) + r.choice(["", "", "", "", "."]))
    for s in ("-a", "a-", "-", "--", "ab--c", "a--b", "xn--", "xn--a", "xn--a-", "a..b", ".a", "a.", "..", "fa\xdf.de", "xn--fa-hia.de", "fass.de", "\u30fb", "a\u30fbb", "l\xb7l", "a\xb7b", "\u05d0-", "\u05d01", "1\u05d0", "\u05d0a", "a.\u05d0", "1.\u05d0", "a-.\u05d0", "\u0915\u094d\u200d", "\u0915\u200d", "a_b", "A", "EXAMPLE.com", "xn--l8jegik.net", ""): D.append(s)
    for n in (1, 62, 63, 64, 65, 120, 126, 127, 128, 252, 253, 254, 255, 300):
        D += ["a" * n, "b." + "a" * n, ".".join(["a"] * n), "a" * n + ".b", "\u3042" * n, ("a" * 63 + ".") * (n // 64) + "b" * (n % 64), "\xfc" + "a" * n]
    for s in D: T.append(s)
    def ok(s): return not any(0xD800 <= ord(c) <= 0xDFFF for c in s)
    cases = [write(s) for s in T if ok(s)]
    hosts = D if not ctx.quick else r.sample(D, 900)
    cases += [host(0, s) for s in hosts if s and ok(s)]
    ctx.extra["rule"] = "every ASCII code point and a table of others in every kind of text; number forms in every part; IPv6 texts with every count of groups and place of ::; opaque texts of URL units and others; domains of labels in Unicode and ACE form, with joiners, marks and right-to-left letters, valid and not, around the length limits"
    conformance(ctx, exe, "HostWriteTrace", uniq(cases), corrupt=corrupt_w, env=ENV, ncanary=16)
