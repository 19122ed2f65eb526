from vlib import *
import itertools
ASSUMPTIONS = {"C29": ["the tokeniser stage and the input stream by themselves: the errors of tree construction have no names in the Standard and are not compared", "the consumer of the tokens acknowledges the self-closing flag of <br/> and of nothing else"],
  "C13": ["the tokeniser stage by itself: the switches of content model by tree construction are in C14", "parse errors are in C29; attributes and self-closing flags of end tags have no effect and are not compared",
                       "a missing DOCTYPE identifier and an empty one look the same in a token of the library"]}
LIBS = ["atom_tbl", "idx_ptr", "idx_cp", "encoding"]
ENV = {"SPECDATA": os.path.join(SPEC, "data")}
ST = {"data": 0, "rcdata": 1, "rawtext": 2, "script": 3, "plaintext": 4, "cdata": 5}
def case(t, st="data", stack=1, last="", before=()):
    return {"line": " ".join([str(ST[st]), str(stack), str(len(before)), ints(last)] + [ints(b) for b in before] + [ints(t)]), "text": t, "start": st, "stack": stack, "last": last, "before": list(before)}

# a text that leads into each state
CONTEXT = ["", "<", "</", "<a", "<A ", "<a b", "<a B ", "<a b=", "<a b=c", "<a b=\"", "<a b='", "<a b=\"x\"", "<a/", "<a b/", "<?", "<!", "<!x", "<!-", "<!--", "<!---", "<!--a", "<!--a<", "<!--a<!", "<!--a<!-", "<!--a<!--", "<!--a-", "<!--a--", "<!--a--!",
           "<!doctype", "<!DOCTYPE ", "<!doctype h", "<!doctype h ", "<!doctype h x", "<!doctype h public", "<!doctype h PUBLIC ", "<!doctype h public\"", "<!doctype h public 'a", "<!doctype h public 'a'", "<!doctype h public \"a\" ", "<!doctype h public 'a' \"b",
           "<!doctype h system", "<!doctype h System ", "<!doctype h system \"", "<!doctype h system 'a", "<!doctype h system 'a'", "<!doctype h system 'a' x", "&", "&a", "&am", "&amp", "&#", "&#x", "&#1", "&#x1", "&#X4g", "&not", "&notin", "&noti", "<a b='&", "<a b=\"&am", "<a b=&amp", "<a b='&#", "<a b=&#x", "<a b=&#65", "<a b=&not", "<![CDATA[", "<![CDATA[]", "<![CDATA[]]", "<![CDAT", "<!doctyp", "\r"]
TXT = ["", "<", "</", "</t", "</T", "</ti", "</t ", "</t/", "&", "&a", "&amp", "&#6", "</t a=", "<!", "<!--", "</x"]
SCR = ["", "<", "</", "</script", "</SCRIPT ", "</scrip", "<!", "<!-", "<!--", "<!--a", "<!--a-", "<!--a--", "<!--<", "<!--</", "<!--</script", "<!--</s", "<!--<s", "<!--<script", "<!--<script ", "<!--<script>a", "<!--<script>-", "<!--<script>--", "<!--<script>a<", "<!--<script>a</", "<!--<script>a</script", "<!--<script>a</scr", "<!--<b", "<!--<b>", "<!--<script></script>", "<!--<script></script></script", "<!----", "<!---->"]
PIECES = ["<", ">", "</", "/", "<!", "<!--", "-->", "--!>", "-", "--", "!", "a", "B", " ", "\t", "\n", "\r", "\r\n", "\f", "\x00", "=", "\"", "'", "`", "&", "&amp;", "&amp", "&not", "&notin;", "&notit;", "&lt", "&#65;", "&#x41", "&#0;", "&#x80;", "&#", "&#x", "&x;", "&ampx", "&amp=", ";", "#", "x", "<a>", "</a>", "<b c=d>", "<b c='d'/>", "<!doctype html>", "<!DOCTYPE html PUBLIC \"p\" 's'>", "<!doctype", "<![CDATA[", "]]>", "]", "]]", "<?pi?>", "<script>", "</script>", "<br/>", "\u00e9", "\U0001f600", "\ufeff", "public", "system", "<a b b=1 B>", "text"]

def corrupt(ev, r):
    e = r.choice(ev)
    if not e.get("r"): return False
    x = r.choice(e["r"])
    if x["t"] == "c": x["d"] = x["d"] + [33]
    elif x["t"] == "f": e["r"].append(dict(x))
    elif x["t"] == "d": x["q"] ^= True
    elif x["t"] == "m": x["d"] = [1] + x["d"]
    elif x["t"] == "s" and r.random() < .5: x["sc"] ^= True
    else: x["n"] = x["n"] + [120]
    return True
def uniq(cases):
    seen = set(); out = []
    for c in cases:
        if c["line"] not in seen: seen.add(c["line"]); out.append(c)
    return out
def entities():
    import json as js
    return ["".join(map(chr, e["n"])) for e in js.load(open(os.path.join(SPEC, "data", "entities.json")))]

FAMILIES = ("tag", "comment", "doctype", "script", "ref", "text", "cdata")
def texts(ctx):
    r = ctx.rng; q = ctx.quick; cases = []
    # every character, and the end, in every state
    tails = ["", ">", "\">", "'>x", "-->y", ";", "b", " c", "=", "<d>", "]]>"]
    for ctxt in CONTEXT:
        for st in ({0, 2} if "[CDA" in ctxt else {1}):
            cases.append(case(ctxt, stack=st))
            for c in range(128): cases.append(case(ctxt + chr(c) + r.choice(tails), stack=st))
            for c in "\u00e9\u0100\U0001f600\ufffe": cases.append(case(ctxt + c + r.choice(tails), stack=st))
    for st in ("rcdata", "rawtext", "plaintext"):
        for p in TXT:
            cases.append(case(p, st, last="t"))
            for c in range(128): cases.append(case(p + chr(c) + r.choice(tails), st, last="t"))
    for p in SCR:
        cases.append(case(p, "script", last="script"))
        for c in range(128): cases.append(case(p + chr(c) + r.choice(tails + ["</script>", "-->", "<script>"]), "script", last="script"))
    for p in ("", "]", "]]", "]]]", "a]"):
        for c in range(128): cases.append(case(p + chr(c) + "x", "cdata", stack=2))
    # short strings
    small = {"tag": (["<a", "</", "<a b", "<a b='"], ["a", "B", " ", "/", "=", "\"", "'", ">"]), "com": (["<!--", "<!"], ["-", "!", ">", "<", "a"]), "dt": (["<!doctype a ", "<!doctype", "<!doctype a public"], ["public", "system", " ", "\"", "'", ">", "x"]),
             "cd": (["<![CDATA["], ["]", ">", "a", "<![CDATA["]), "ref": (["&", "<a b=\"&", "<a b=&"], ["amp", "lt", "not", "in", ";", "=", "#", "x", "1", "G", "&"])}
    for nm, (pre, al) in small.items():
        n = 3 if q else 4
        for k in range(n + 1):
            al2 = list(itertools.product(al, repeat=k))
            if len(al2) > 1500 and q: al2 = r.sample(al2, 700)
            for p in pre: cases += [case(p + "".join(x), stack=2 if nm == "cd" else 1) for x in al2]
    for k in range(1, 5 if q else 6):
        x = list(itertools.product(["<", "/", "t", "T", ">", " ", "&"], repeat=k))
        x = r.sample(x, min(len(x), 800 if q else 20000))
        cases += [case("".join(s), r.choice(["rcdata", "rawtext"]), last="t") for s in x]
        x = list(itertools.product(["<!--", "-", ">", "<", "/", "script", "SCRIPT", " ", "a"], repeat=k))
        x = r.sample(x, min(len(x), 900 if q else 30000))
        cases += [case("".join(s), "script", last="script") for s in x]
    # script in a comment in a script, in every letter case and with everything that may end the name
    nm, de = ["script", "SCRIPT", "ScRIpt", "scrip", "scriptx", "scr\u0131pt", ""], [">", " ", "/", "\t", "\n", "\f", "x", "-", "<", "\x00"]
    x = [(a, b, c, d) for a in nm for b in de for c in nm for d in de]
    for a, b, c, d in r.sample(x, 900) if q else x: cases.append(case(f"<!--<{a}{b}e</{c}{d}f</script>g-->h</script>i", "script", last="script"))
    for a in nm[:3]:
        for b in de[:6]: cases += [case(f"<!--<{a}{b}e</script>f</{c}{b}g</script>h", "script", last="script") for c in nm[:3]]
    # character references: the whole table
    ents = entities()
    for e in ents:
        b = e.rstrip(";")
        cases.append(case("&" + e + r.choice(["", "x", " ", "=", ";", "1", "&"])))
        m = r.random()
        if not q or m < .35: cases.append(case("<a b=" + r.choice(["'", '"']) + "&" + e + r.choice(["", "x", " ", "=", ";", "1"])  + "\"'>"))
        if not q or m < .3: k = r.randrange(1, len(b) + 1); cases.append(case("&" + b[:k] + r.choice(["", ";", "q", " ", "\u00e9", "\x00", "Z;", "<b>"])))
        if not q or m < .1: cases.append(case("&" + b.swapcase() + ";", "rcdata", last="t"))
    for v in [0, 1, 8, 9, 10, 11, 12, 13, 14, 31, 32, 65, 126, 127, 128, 129, 130, 141, 143, 144, 150, 157, 158, 159, 160, 0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x10fffe, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 2**32, 2**32 + 65, 2**64 + 65, 2**36, 10**20 + 65]:
        for f in ("&#{};", "&#{}", "&#x{:x};", "&#X{:X}", "&#000{}z", "&#x0000{:x} ", "<a b='&#{};'>", "<a b=&#x{:x}>", "&#{};&#{};", "&#{}<a>", "&#x{:x};</a>"):
            cases.append(case(f.format(v, v), r.choice(["data", "data", "rcdata"]) if f[0] == "&" else "data", last="t"))
    for c in range(128, 160): cases += [case(f"&#{c};")]
    # newlines
    for t in itertools.product(["\r", "\n", "a", "<!--", "&#65;", "<a b='"], repeat=4): cases.append(case("".join(t)))
    for t in itertools.product(["\r", "\n", "-->", "<!", "&"], repeat=3): cases.append(case("<!" + "".join(t)))
    # random texts
    for _ in range(2500 if q else 60000):
        st = r.choice(["data"] * 6 + ["rcdata", "rawtext", "script", "plaintext", "cdata"])
        cases.append(case("".join(r.choice(PIECES) for _ in range(r.randint(1, 12))), st, r.randrange(3) if st == "data" else 1, {"rcdata": "title", "script": "script", "rawtext": "a"}.get(st, "")))
    for _ in range(60 if q else 1500): cases.append(case("".join(r.choice(PIECES) for _ in range(r.randint(40, 90))), stack=r.randrange(3)))
    for p in ("&x <!--", "&a<!doctype", "&am <!doctype h ", "&l<!--a--><!--b-->&#65;", "&", "&#", "&#65;", "<!doctype h  ", "<![CDATA["):
        for n in (1, 5, 6, 7, 8, 30, 31, 32, 33, 34, 40): cases += [case(p + "y" * n), case(p + "y" * n + "-->z&amp;<b>"), case("&" + "y" * n + p + "z&lt;")]
    # more than fits in 8 bits: names, values, attributes, texts
    for n in (255, 256, 257, 300) if q else (127, 128, 255, 256, 257, 300, 1000):
        y = "y" * n
        cases += [case(t % y) for t in ("<%s>", "</%s>", "<a %s=1>", "<a b=%s c>", "<a b='%s' c>", "<!--%s-->", "<!doctype %s>", "<!doctype a public '%s'>", "<!doctype a system '%s'>", "a%sb", "&%s;", "<?%s>", "<a b=&%s;>")]
        cases += [case("&#" + "0" * n + "65;"), case("&#x" + "0" * n + "41;"), case("&#" + "6" * n + ";"), case("<a " + " ".join(f"b{i}={i}" for i in range(n)) + ">"), case("<a " + " ".join(f"b{i % 250}={i}" for i in range(n)) + ">"),
                  case("<" + y[:n] + "/>"), case("x" + "<" * n + "b>"), case("<!--" + "-" * n + ">"), case(y + "</" + y + ">", "rcdata", last=y), case(y + "</" + y[:-1] + ">", "rawtext", last=y), case("]" * n + ">x", "cdata")]
    # a tokeniser used again
    for _ in range(500 if q else 8000):
        b = ["".join(r.choice(PIECES) for _ in range(r.randint(1, 6))) for _ in range(r.randint(1, 2))]
        cases.append(case("".join(r.choice(PIECES) for _ in range(r.randint(1, 6))), before=b))
    # given up in every state, then used again
    def third(t): return "x" * ((1 - len(t)) % 3) + t
    for c in CONTEXT:
        for t in ("\na&amp;b", "<b c=d/>e</b>", "<!--e--><!doctype f>", "&#65;&notit;", "amp;lt", "\n", "octype a>", "--><a>", "'>\">x", "[CDATA[x]]>", "65;", ">"): cases.append(case(t, before=[third(c)]))
        for d in r.sample(CONTEXT, 6): cases.append(case("<b c='d'>\n&lt", before=[third(c), third(d)]))
    for c in SCR: cases += [case(t, "script", last="script", before=[third(c)]) for t in ("</script>a", "script></script>a", "--></script>", "<!--<script></script></script>")]
    for c in TXT: cases += [case(t, st, last="t", before=[third(c)]) for t in ("</t>a", "t>a", ">", "&amp</t>") for st in ("rcdata", "rawtext")]
    return cases
def C13(ctx):
    exe = build("htmltok", LIBS); q = ctx.quick
    check_models(ctx, [("HtmlTokMC", f"HtmlTokMC_{f}.cfg" if q else f"HtmlTokMC_{f}deep.cfg") for f in FAMILIES])
    cases = texts(ctx)
    # long inputs
    for u in ("&x<!--a-->", "<b c=&amp;>&lt;</b>", "<!doctype h ><!-- -->", "<![CDATA[a]]><c>", "<b>&#65;&#x42;", "<!--&-->&notit;<!doctype a>& ", "<p>text", "<a b='&amp' c=d>", "&ampx<!x>", "</a b=c>\r"):
        for n in (2, 50, 3000 if q else 20000):
            for st in (1, 2): cases.append({"line": f"6 {st} {n} 0 " + ints(u), "repeat": u, "n": n, "stack": st})
    ctx.extra["rule"] = "every ASCII character and the end of file in every state (contexts leading into each), all short strings over the characters each group of states tells apart, every named reference, boundary values of numeric references, newline combinations, random texts, lookahead across a full buffer, tokenisers used again"
    check_known(ctx, exe, "HtmlTokTrace", cfg="HtmlTokTraceStrict.cfg", env=ENV)
    conformance(ctx, exe, "HtmlTokTrace", uniq(cases), corrupt=corrupt, env=ENV, ncanary=24)

def corrupt_err(ev, r):
    e = r.choice(ev)
    if e["op"] == "whole": e["n"] += 1; return True
    if "e" not in e: return False
    k = r.randrange(3)
    if k == 0 and e["e"]: e["e"].pop(r.randrange(len(e["e"])))
    elif k == 1 and e["e"]: i = r.randrange(len(e["e"])); e["e"][i] = e["e"][i] % 49 + 1
    else: e["e"].append(r.choice([46, 17, 7, 10, 29]))
    return True
def C29(ctx):
    exe = build("htmltok", LIBS); r = ctx.rng; q = ctx.quick
    check_models(ctx, [("HtmlErrMC", f"HtmlErrMC_{f}.cfg" if q else f"HtmlErrMC_{f}deep.cfg") for f in FAMILIES])
    cases = texts(ctx)
    # attributes: repeated names, end tags, slashes
    at = [" a", " b", " A=1", " a='x'", "/", " =", " a\"", " a=\"1\"b", " \x00", "=", " a=`", " "]
    for k in range(4):
        xs = list(itertools.product(at, repeat=k))
        if len(xs) > 500 and q: xs = r.sample(xs, 500)
        for x in xs:
            for h in ("<p", "</p", "<br"): cases += [case(h + "".join(x) + ">"), case(h + "".join(x) + "/>"), case(h + "".join(x))]
    cases += [case("</t a b=1/>", st, last="t") for st in ("rcdata", "rawtext")] + [case("</t" + x, st, last="t") for st in ("rcdata", "rawtext") for x in (" a>", "/>", " a/>", " a a>", " a", "/", ">", "/x>")]
    # the input stream: the edges of every class of code points, beside newlines and inside markup
    cps = list(range(0, 0xa2)) + [0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdffe, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfdd1, 0xfde0, 0xfdee, 0xfdef, 0xfdf0, 0xfdf1, 0xfeff, 0xfffc, 0xfffd]
    for p in range(17): cps += [p << 16 | 0xfffd, p << 16 | 0xfffe, p << 16 | 0xffff] + ([p << 16, p << 16 | 0xfdd0] if p else [])
    def raw(pre, cp, post): return [ord(x) for x in pre] + cp + [ord(x) for x in post]
    def rawcase(a, st="data"): return {"line": " ".join([str(ST[st]), "1", "0", ints(""), ints(a)]), "text": "".join(f"\\u{{{x:x}}}" for x in a), "start": st}
    for c in cps:
        cases += [rawcase(raw("", [c], "")), rawcase(raw("\r", [c], "\n")), rawcase(raw(r.choice(["<!--", "<a b='", "&", "<!doctype ", "</", "&#"]), [c, c], r.choice(["", ">", ";"])))]
        cases += [case(f"&#{c};"), case(f"&#x{c:x}" + r.choice(["", ";", "g"])), case(f"<a b=\"&#{c}" + r.choice(["\">", ";\">", ""]))]
    for _ in range(300 if q else 5000): cases.append(rawcase([r.choice(cps) if r.random() < .6 else r.choice([60, 62, 38, 13, 10, 45]) for _ in range(r.randint(1, 12))], r.choice(["data", "data", "rcdata", "rawtext", "script", "plaintext"])))
    # the whole parser: a trailing solidus is reported once, whatever insertion modes the tag goes through
    body = ["div", "p", "span", "b", "i", "a", "br", "hr", "img", "wbr", "embed", "input", "area", "image", "param", "source", "track", "svg", "math", "ul", "li", "h1", "em", "x-y", "section", "font", "ruby", "form"]
    head = ["meta", "link", "base"]
    pre = ["", "<!doctype html>", "<html>", "<!doctype html><html><head>", "<head></head>", "<html><head></head><body>", "<body>", "x", "<!--c-->", "\n"]
    tags = lambda ns: ["<%s%s/>" % (n, a) for n in ns for a in ("", " ", " a=b ")] + ["<%s>" % n for n in ns if n not in ("svg", "math")]
    for x in pre:
        for t in body + (head if "body" not in x and x != "x" else []):
            for y in tags([t]): cases.append({"line": "7 0 0 0 " + ints(x + y), "whole": x + y})
    allt = tags(body)
    for _ in range(400 if q else 8000):
        t = r.choice(pre) + "".join(r.choice(allt) + r.choice(["", "t", " ", "</p>", "</div>"]) for _ in range(r.randint(1, 6)))
        cases.append({"line": "7 0 0 0 " + ints(t), "whole": t})
    ctx.extra["rule"] = "the errors reported for the texts of C13, for tags over repeated and malformed attributes, for the edges of the classes of code points in the input stream and in references"
    check_known(ctx, exe, "HtmlErrTrace", cfg="HtmlErrTraceStrict.cfg", env=ENV)
    conformance(ctx, exe, "HtmlErrTrace", uniq(cases), corrupt=corrupt_err, env=ENV, ncanary=24)
