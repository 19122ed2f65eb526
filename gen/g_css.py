from vlib import *
import itertools
ASSUMPTIONS = {p: ["numbers are compared to 13 significant digits; values beyond the range of a double are only required to be recognised as such",
                   "CSS Syntax Level 3 in its 2021 form (before css-nesting changed the parser section)"] for p in ("C16", "C17")}
LIBS = ["css_token", "idx_ptr", "idx_cp", "encoding"]
ENV = {"SPECDATA": os.path.join(SPEC, "data")}

def tok(t): return {"line": "1 " + ints(t), "tokenise": t if isinstance(t, str) else list(t)}
def parse(t): return {"line": "2 " + ints(t), "parse": t if isinstance(t, str) else list(t)}
def byts(fb, b): return {"line": f"3 {fb} " + ints(b), "bytes": list(b)[:60], "fallback": fb}

def corrupt(ev, r):
    e = r.choice(ev)
    def bump(t):
        m = r.randrange(4)
        if m == 0: t["v"] = t["v"] + [33]
        elif m == 1: t["f"] += 1
        elif m == 2: t["k"] = "ident" if t["k"] != "ident" else "hash"
        else: t["n"] = t["n"] + [5]
        if t["c"] and r.random() < .5: del t["c"][r.randrange(len(t["c"]))]
    if e["op"] == "tok":
        if not e["t"] or r.random() < .2: e["same"] ^= True
        elif r.random() < .3: del e["t"][r.randrange(len(e["t"]))]
        else: bump(r.choice(e["t"]))
    elif e["op"] == "parse":
        x = r.choice(e["r"])
        if not x or r.random() < .2: e[r.choice(["st", "sv", "cp"])] ^= True
        elif isinstance(x[0], list): x.append([])
        else: bump(r.choice(x))
    elif e["op"] == "bytes":
        if r.random() < .4: e["e"] += 1
        else: e["out"].append(7)
    return True

ALPHA = list("aeEuUz019.+-\\\"'\n \t()/*#@!<>%_,:;[]{}\u00e9") + ["\x00", "\x01", "\x7f", "\r", "\f", "\U0001f4a9"]
PIECES = ["url(", "URL(", "uRl(", "u\\72l(", "url( ", "url('", 'url("', "url( '", 'url(  "', "url)", "\\", "\\a", "\\41 ", "\\000041b", "\\110000", "\\d800 ", "\\0", "\\\n", "\\\r\n", "\r\n", "\r", "\f", "\t", " ", "\n", "/*", "*/", "/**/", "/* x */", "/", "*",
          "<!--", "-->", "<!-", "--", "-", "->", "---", "-a", "-1", "-.5", "+.5", "+1", "++1", "--1", "..5", ".5", ".", "+", "1", "0", "00", "1e3", "1e", "1e+", "1E-2", "1.5e+3", "1.", "1.e3", "e", "em", "px", "%", "1%", "1.5em", "1-x", "1--x", "1e-x", "1\\65", "10-", "#", "#a", "#1", "#-", "#--", "#\\31", "#é", "@", "@a", "@-", "@--", "@1", "@\\", "@media",
          "'", '"', "'a'", '"b"', "'a\\'b'", '"\\\n"', "'\n", '"\\', "(", ")", "[", "]", "{", "}", ",", ":", ";", "!", "!important", "a", "ab", "f(", "a\\(", "_", "é", "\U0001f4a9", "\x00", "\x01", "\x0b", "\x7f", "\ud800", "\ufffd", "~", "|", "=", "$", "^", "&", "U+26", "\x80", "calc(", "\\29", "\\)", "\\zz"]

def number(r):
    def digs(n): return "".join(r.choice("0123456789") for _ in range(n))
    sig = r.choice([1, 2, 3, 5, 8, 10, 13, 13])
    d = r.choice("123456789") + digs(sig - 1)
    m = r.random()
    if m < .35: s = "0" * r.choice([0, 0, 1, 3, 12]) + d + "0" * r.choice([0, 0, 0, 2, 9, 20])
    elif m < .6: k = r.randrange(len(d) + 1); s = "0" * r.choice([0, 0, 2, 11]) + d[:k] + "." + d[k:] + "0" * r.choice([0, 1, 8]); s = s if not s.endswith(".") else s + "0"
    elif m < .8: s = r.choice(["", "0", "00"]) + "." + "0" * r.choice([0, 1, 5, 11, 25]) + d
    elif m < .9: s = d + "." + "0" * r.choice([1, 10, 30])
    else: s = digs(r.choice([9, 10, 11, 13])) if r.random() < .5 else "0" * r.randint(1, 12) + r.choice(["", "." + "0" * r.randint(1, 12)])
    if r.random() < .4: s += r.choice("eE") + r.choice(["", "+", "-"]) + "0" * r.choice([0, 0, 1, 4]) + str(r.choice([0, 1, 2, 3, 7, 10, 15, 22, 23, 38, 100, 200, 250, 400, 1000, 4294967295, 4294967296, 99999999999]))
    return r.choice(["", "", "+", "-"]) + s
LIT = ["2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740993", "1" * 10, "1" * 11, "9" * 13, "12345678901234567890", "0.1", "0.10000000000000000000000001", ".0000000001", "0.00000000001", "1.4294967295", "1.4294967296", "1.12345678901", "3.14159265358979", "1e4294967296", "1e-4294967296", "0e99999999999", "-0", "+0", "-0.0", "1e400", "-1e400", "1e-400", "0.5e1", "5e-1", "1e22", "1e23", "123456789012e-12", "1" + "0" * 400 + "e-5", "1" + "0" * 400 + "e-250", "0." + "0" * 400 + "1e+5", "0." + "0" * 400 + "1e250", "1" + "0" * 400 + "e5", "." + "0" * 400 + "3e-7", "0" * 400 + "1", "0" * 400 + "1e400", "1" + "0" * 350, "7" + "0" * 360 + ".5"]

def fine(s):
    """keep numbers away from where rounding to 13 digits, overflow and underflow are borderline"""
    for m in re.finditer(r"(\d*)\.?(\d+)?(?:[eE]([+-]?\d+))?", s):
        if not m.group(0): continue
        d = ((m.group(1) or "") + (m.group(2) or "")).lstrip("0")
        e = int(m.group(3) or 0); sc = len(d) - 1 + e - len(m.group(2) or "")
        if 298 < abs(sc) < 335: return False
        if len(d) > 13 and re.match(r"5?0{0,2}$|4?9{0,2}$|50|49", d[13:16]) and d[13:].strip("0"): return False
    return True

def uniq(cases):
    seen = set(); out = []
    for c in cases:
        if c["line"] not in seen: seen.add(c["line"]); out.append(c)
    return out

def rtext(r, n): return "".join(r.choice(PIECES) if r.random() < .6 else r.choice(ALPHA) if r.random() < .8 else number(r) for _ in range(r.randint(1, n)))
def C16(ctx):
    exe = build("css", LIBS)
    check_model(ctx, "CssMC", None if ctx.quick else "CssMCdeep.cfg"); r = ctx.rng
    cases = [tok([c]) for c in range(256)] + [tok([ord("a"), c, ord("b")]) for c in range(256)]
    for a in ALPHA:
        for b in ALPHA: cases.append(tok(a + b))
    tri = [a + b + c for a in ALPHA for b in ALPHA for c in ALPHA]
    if ctx.quick: tri = r.sample(tri, 9000)
    cases += [tok(t) for t in tri]
    crit = list("+-.1e\\#@")
    for n in ((3, 4) if ctx.quick else (3, 4, 5)):
        cases += [tok("".join(t)) for t in itertools.product(crit if n < 5 else "+-.1e\\", repeat=n)]
    for p in PIECES:
        cases.append(tok(p))
        for q in PIECES:
            if r.random() < (.35 if ctx.quick else 1): cases.append(tok(p + q))
    for c in range(0, 128):
        for f in ("url({}", "url({})", "url(a{}b)", "url(\\{}a)", "url( {}", "\\{}", "a\\{}b", "'\\{}'", "#{}", "@{}", "-{}", "1{}", "+{}", "/{}", "url(a {})c"): cases.append(tok(f.format(chr(c))))
    for _ in range(2500 if ctx.quick else 60000): cases.append(tok(rtext(r, 8)))
    for _ in range(1200 if ctx.quick else 30000): cases.append(tok(number(r) + r.choice(["", "", "%", "px", "e", "-", ".", "e+", " ", "\\", "--"])))
    for x in LIT: cases += [tok(x), tok("-" + x), tok(x + "px"), tok(x + "%")]
    for _ in range(20 if ctx.quick else 300): cases.append(tok(rtext(r, 80)))
    for _ in range(150 if ctx.quick else 4000): cases.append(tok([r.choice([r.randrange(128), r.randrange(0x300), r.randrange(0x110000)]) for _ in range(r.randint(1, 12))]))
    # escapes: the values at the edges of every class, in every number of digits, before everything that can follow
    for v in (0, 1, 9, 0xA, 0xB, 0x41, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDD0, 0xFFFD, 0xFFFF, 0x10000, 0xFFFFF, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x200000, 0xFFFFFF):
        for n in range(len("%X" % v), 7):
            for h in {"%0*X" % (n, v), "%0*x" % (n, v)}:
                for f in ("\\{}", "'\\{}'", "url(\\{})", "#\\{} a") if ctx.quick else ("\\{}", "a\\{}", "'\\{}'", "url(\\{})", "#\\{} a", "@\\{}", "1\\{}", "\\{}(", "--\\{}"):
                    for t in ([r.choice(["", " ", "\n", "\t", "\r\n", "\f", "0", "f", "g", "  ", "\\41"]) for _ in range(2)] if ctx.quick else ["", " ", "\n", "\t", "\r\n", "\f", "0", "f", "g", "  ", "\\41"]): cases.append(tok(f.format(h + t)))
    # bytes: charset declarations
    labels = ["utf-8", "UTF-8", " utf-8 ", "utf-16", "utf-16be", "UTF-16LE", "shift_jis", "Shift_JIS", "euc-jp", "windows-1252", "latin1", "x", "", "replacement", "x-user-defined", "iso-2022-jp", "gbk", "utf-8\"", "utf\"8", "\u00e9"]
    bodies = [b"a{}", b"\xe3\x81\x82{}", b"\x82\xa0", b"\xff\xfe", b"\xef\xbb\xbf", b""]
    for lb in labels:
        for f in ('@charset "%s";', '@charset "%s"', "@charset '%s';", '@charset  "%s";', '@Charset "%s";', '@charset "%s" ;', ' @charset "%s";', '@charset "%s";;'):
            cases.append(byts(r.choice([0, 0, 0, 1, 35]), (f % lb).encode() + r.choice(bodies)))
        for b in bodies: cases.append(byts(0, ('@charset "%s";' % lb).encode() + b)); cases.append(byts(0, b"\xef\xbb\xbf" + ('@charset "%s";' % lb).encode() + b))
    for n in (1002, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1020): cases += [byts(0, ('@charset "%s";' % ("gbk" + " " * (n - 3))).encode() + b"a{}"), byts(0, ('@charset "%s";' % (" " * (n - 9) + "shift_jis")).encode() + b"\x82\xa0{}")]
    for k in range(14): cases.append(byts(0, b'@charset "gbk";'[:k] + b"a{}"[: r.randrange(4)]))
    for e in range(1, 41): cases.append(byts(e, bytes(r.choice([0x41, 0x7b, 0x7d, 0x82, 0xa0, 0xa4, 0xa2, 0xe3, 0x81, 0xff]) for _ in range(8)) + b"a{}"))
    cases = uniq([c for c in cases if "tokenise" not in c or not isinstance(c["tokenise"], str) or fine(c["tokenise"])])
    ctx.extra["rule"] = "every text of one and two code points of the alphabet and (quick: a sample of) three, all strings over the sign/dot/digit/escape alphabet up to 4 (5), pairs of the token pieces, every ASCII code point in 15 contexts, numbers, escapes of the edge values, random texts, charset declarations in bytes"
    conformance(ctx, exe, "CssTrace", cases, corrupt=corrupt, env=ENV, ncanary=24)

KIND = ["a", " ", "f(", "@m", ":", ";", ",", "!", "important", "<!--", "(", ")", "[", "]", "{", "}"]
def C17(ctx):
    exe = build("css", LIBS)
    check_model(ctx, "CssMC", "CssMCtok.cfg" if ctx.quick else "CssMCtokdeep.cfg"); r = ctx.rng
    sep = "/**/"
    cases = [parse("")]
    for n in (1, 2, 3): cases += [parse(sep.join(t)) for t in itertools.product(KIND, repeat=n)]
    four = list(itertools.product(KIND, repeat=4))
    cases += [parse(sep.join(t)) for t in (r.sample(four, 6000) if ctx.quick else four)]
    more = KIND + ["-->", "#h", "'s'", "'s\n", "url(x)", "url(x x)", "url('x'", "1", "2%", "3px", "IMPORTANT", "b", "color", "}", "{", ")", "(", "@media", " ", ":", ";", "!important"]
    for _ in range(4000 if ctx.quick else 80000): cases.append(parse(sep.join(r.choice(more) for _ in range(r.randint(4, 14)))))
    for _ in range(150 if ctx.quick else 4000): cases.append(parse("".join(r.choice(more) for _ in range(r.randint(10, 60)))))
    # well-formed sheets, and the same with one piece dropped, doubled or moved
    def value(d): return " ".join(r.choice(["1px", "red", "f(" + (value(d - 1) if d else "x") + ")", "[" + (value(d - 1) if d else "") + "]", "'s'", "url(u)", "a,b", "{" + (value(d - 1) if d else "") + "}"]) for _ in range(r.randint(0, 3)))
    def decls(d): return ";".join(r.choice(["a:" + value(d), "b : " + value(d) + " !important", "c:" + value(d) + "! Important ", "@x " + value(d), "d", "e f:g", ":h", "", " "]) for _ in range(r.randint(0, 4)))
    def rule(d): return r.choice([lambda: "p " + value(1) + "{" + decls(d) + "}", lambda: "@media " + value(1) + "{" + (sheet(d - 1) if d else decls(0)) + "}", lambda: "@import " + value(1) + ";", lambda: "<!--", lambda: "-->"])()
    def sheet(d): return r.choice(["", " ", "\n"]).join(rule(d) for _ in range(r.randint(0, 3)))
    for _ in range(800 if ctx.quick else 20000):
        s = r.choice([sheet, sheet, decls, rule, value])(2)
        cases.append(parse(s))
        if s:
            k = r.randrange(len(s)); m = r.randrange(3)
            cases.append(parse(s[:k] + s[k + 1:] if m == 0 else s[:k] + r.choice("{}()[];:!@,\"'") + s[k:] if m == 1 else s[:k]))
    for d in (20, 60): cases += [parse(o * d + c * e) for o, c in (("(", ")"), ("{", "}"), ("[", "]"), ("f(", ")"), ("a{", "}")) for e in (0, d - 1, d, d + 1)]
    ctx.extra["rule"] = "every sequence of up to three token kinds (16 kinds) and a sample of four (thorough: all), longer random ones, style sheets with one edit, deep nesting; all eight entry points on the text, on its tokens and on its component values"
    conformance(ctx, exe, "CssTrace", uniq([c for c in cases if fine(c["parse"])]), corrupt=corrupt, env=ENV, ncanary=24)
