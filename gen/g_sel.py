from vlib import *
import itertools
ASSUMPTIONS = {"C18": ["as the library documents, every pseudo-class and pseudo-element name is accepted; bad tokens inside the arguments of a functional pseudo leave acceptance open"],
               "C19": ["element and attribute names are compared ASCII case-insensitively in HTML documents (also of foreign elements), as the library documents", "trees without a document are queried with lower-case names only, in no-quirks mode",
                       "known finding: [attr|=value] is not required to match an attribute equal to the value"]}
LIBS = ["grammar", "css_token", "atom_tbl", "idx_ptr", "idx_cp", "encoding"]

def parse(t, ns=()): return {"line": "1 %d %s " % (len(ns), " ".join(ints(p) + " 1" for p in ns)) + ints(t), "parse": t if isinstance(t, str) else list(t), "prefixes": list(ns)}

# component values of the grammar, joined with and without a comment so that neighbouring identifiers stay apart
KIND = ["a", "n", "before", "*", "|", ".", ">", "+", "~", ":", ",", " ", "#a", "#1", "[a]", "[a=b]", "f(", ")", "x(b)"]
ATT = ["a", "n", "i", "s", "*", "|", "=", "~", "^", "$", "'s'", " ", "1", ":"]
PIECE = KIND + ["||", "::", "::before", ":before", ":First-Line", "::part(x)", ":root", ":hover", "\\*|a", "n|a", "*|a", "*|*", "|a", "|*", "n|*", "u|a", "[n|a]", "[*|a]", "[|a]", "[u|a]", "[a|=b]", "[ a ~= 'b' i ]", "[a^=b S]", "[a$='']", "[a*=b i x]",
         "[a=b x]", "[a=1]", "[a=]", "[=b]", "[]", "[a", "(a)", "{a}", "]", ")", "}", "#", "#-", "#--", ".1", "..", ". a", ": root", "b", "-a", "é", "\\61", "'s'", "1", "2px", "@a", "url(x)", "!", "/", "=", "^", "$", "&", "<!--", "-->", "\n", "\t", "/**/", " , ", " > ", " + ", ">>", "~~", "|||", "[a i]", "[a=b i i]", "[a|b]", "[n|*]",
         "[*]", "[a~=b][c]", ":not(a)", ":is()", "::before:hover", "::a::b", ":f(url(x x))", "a:b", "0"]
def simple(r, d=1):
    return r.choice(["." + r.choice(["a", "b", "-c", "\\31 x", "é"]), "#" + r.choice(["a", "b", "a-1", "\\31"]), "[" + ws(r) + r.choice(["", "", "n|", "*|", "|"]) + "a" + ws(r) + "]",
                     "[" + ws(r) + r.choice(["", "n|", "*|", "|"]) + "a" + ws(r) + r.choice(["=", "~=", "|=", "^=", "$=", "*="]) + ws(r) + r.choice(["b", "'b'", '"b c"', "''"]) + r.choice(["", " i", " s", " I", "  S "]) + ws(r) + "]",
                     ":" + r.choice(["root", "ROOT", "hover", "f(a b)", "x()"])])
def ws(r): return r.choice(["", "", "", " ", "\n", "  ", "/**/"])
def compound(r):
    t = r.choice(["", "", "a", "*", "B", "n|a", "*|a", "|a", "n|*", "*|*"]); s = t + "".join(simple(r) for _ in range(r.choice([0, 0, 1, 2])))
    if r.random() < .15: s += r.choice(["::x", "::before", ":before", "::f(a)", ":AFTER"]) + "".join(":" + r.choice(["hover", "root", "g(x)"]) for _ in range(r.choice([0, 1, 2])))
    return s or simple(r)
def cplx(r, lead=False):
    s = r.choice(["", "", "> ", ">", "+", "~ ", "||"]) if lead else ""
    s += compound(r)
    for _ in range(r.choice([0, 0, 1, 2, 3])): s += r.choice([" ", " ", "\n ", ">", " > ", "+", " +", "~", "~ ", "||", " || "]) + compound(r)
    return s
def slist(r, lead=False): return ws(r) + (ws(r) + "," + ws(r)).join(cplx(r, lead) for _ in range(r.choice([1, 1, 1, 2, 3]))) + ws(r)

def corrupt(ev, r):
    e = r.choice([x for x in ev if x["op"] in ("parse", "q")] or [None])
    if e is None: return False
    if e["op"] == "parse":
        if e["s"] and r.random() < .8:
            c = r.choice(e["s"]); m = r.randrange(4)
            if m == 0: c["o"].append(32)
            elif m == 1: c["s"] = c["s"][:-1]
            elif m == 2: x = r.choice(r.choice(c["s"])); x["n"] = x["n"] + [97]
            else: x = r.choice(r.choice(c["s"])); x["p"] = [[42]] if not x["p"] else []
        elif not e["r"] and not e["s"]:
            if any(c == 40 for c in e["in"]): return False
            e["r"] = [{"l": 0, "s": [[{"k": "any", "p": [], "n": [], "m": 0, "v": [], "i": 0, "c": []}]], "o": []}]; e["rok"] = True
        else: e["copy"] ^= True
    else:
        m = r.randrange(4)
        if m == 3: f = e[r.choice(["sub", "kid", "sco"])]; k = r.randrange(len(f)); f[k] = f[k][1:] if f[k] else [1]
        elif "all" not in e or m == 0: e["tree"] = e["tree"][1:] if e["tree"] else [2]
        elif m == 1:
            k = r.randrange(len(e["all"])); e["all"][k] = e["all"][k][1:] if e["all"][k] else [1]
        else:
            k = r.randrange(len(e["one"])); e["one"][k] += 1
    return True

def uniq(cases):
    seen = set(); out = []
    for c in cases:
        if c["line"] not in seen: seen.add(c["line"]); out.append(c)
    return out

def C18(ctx):
    exe = build("sel", LIBS); r = ctx.rng
    check_model(ctx, "SelectorMC", None if ctx.quick else "SelectorMCdeep.cfg")
    check_model(ctx, "SelectorMC", "SelectorAttrMC.cfg" if ctx.quick else "SelectorAttrMCdeep.cfg")
    cases = [parse(""), parse(" ")]
    ns = ["n"]
    for n in (1, 2, 3): cases += [parse("/**/".join(t), ns) for t in itertools.product(KIND, repeat=n)]
    four = list(itertools.product(KIND, repeat=4))
    cases += [parse("/**/".join(t), ns) for t in (r.sample(four, 5000) if ctx.quick else four)]
    for n in (0, 1, 2, 3):
        for t in itertools.product(ATT, repeat=n): cases.append(parse("[" + "/**/".join(t) + "]", ns))
    four = list(itertools.product(ATT, repeat=4))
    for t in (r.sample(four, 4000) if ctx.quick else four): cases.append(parse("[" + "/**/".join(t) + "]", ns))
    for t in itertools.product(["", " ", "n|", "*|", "|"], ["a", "*", "1", ""], ["", " "], ["", "=", "~=", "|=", "^=", "$=", "*=", "==", "~", "||"], ["", " "], ["b", "'b'", "1", "", "i"], ["", " ", " i", "i", " s ", " x", " i i", "S"]):
        if r.random() < (.5 if ctx.quick else 1): cases.append(parse("[" + "".join(t) + "]", ns))
    for p in PIECE:
        cases.append(parse(p)); cases.append(parse(p, ["n", "u"]))
        for q in PIECE:
            if r.random() < (.3 if ctx.quick else 1): cases.append(parse(p + q, ns))
    for _ in range(2500 if ctx.quick else 40000): cases.append(parse("".join(r.choice(PIECE) for _ in range(r.randint(3, 8))), r.choice([[], ns, ["n", "", "u"]])))
    for _ in range(3500 if ctx.quick else 60000):
        s = slist(r, r.random() < .3); p = r.choice([[], ns, ns, ["n", ""]])
        cases.append(parse(s, p))
        if r.random() < .6:
            k = r.randrange(len(s) + 1); m = r.randrange(4)
            cases.append(parse(s[:k] + s[k + 1:] if m == 0 else s[:k] + r.choice(",>+~|.:#*[]() \n'\"=ab1é\\/") + s[k:] if m == 1 else s[:k] if m == 2 else s[k:], p))
    for c in range(128): cases += [parse(f.format(chr(c)), ns) for f in ("{}", "a{}", "{}a", "a{}b", "a {} b", ".{}", "#{}", "[{}]", "[a{}b]", "[a={}]", ":{}", "a,{}", "a>{}", "[a=b {}]")]
    ctx.extra["rule"] = "every sequence of up to three component values of 19 kinds (sample of four; thorough: all), every attribute block of up to three of 14 kinds (four), all spellings of attribute selectors, pairs of pieces, random lists with one edit, every ASCII character in 14 places; as a selector list and as a relative selector list, with and without declared prefixes"
    conformance(ctx, exe, "SelTrace", uniq(cases), corrupt=corrupt, ncanary=24)

NAMES = ["div", "p", "a", "DIV", "x-y", "span", "é"]
CLS = ["a", "b", "a b", "b  a", " a ", "A", "ab", "\ta\nb", "", "a-b", "B a", "x\fa", "x\u00a0a", "é a"]
VALS = ["", "b", "B", "b-c", "bc", "c b", "-b", "b-", "ab", "abc", " ", "b b", "é", "cb", "B-C", "bb", "b\tc"]
def document(r, size, lower=False, foreign=.1, types=(2,), modes=(1, 1, 2, 3), top=9):
    """nodes: (parent, kind, ns, name, attrs)"""
    typ = r.choice(types); mode = 1 if typ == 1 else r.choice(modes)
    nodes = [(0, top, 0, "r" if top == 1 else "", [])]
    path = [1]
    def attrs():
        out = []; seen = set()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(["id", "class", "class", "t", "t", "href", "data-x", "T", "ID", "CLASS", "x"])
            if lower or (typ == 2): k = k.lower()
            n = r.choice([0] * 9 + [4, 5, 6]) if k not in ("id", "class") else 0
            if (n, k) in seen: continue
            seen.add((n, k))
            v = r.choice(["a", "b", "A", "id1", ""]) if k.lower() == "id" else r.choice(CLS) if k.lower() == "class" else r.choice(VALS)
            out.append((n, {0: "", 4: "xlink", 5: "xml", 6: "xmlns"}[n], k, v))
        return out
    def name(): n = r.choice(NAMES); return n.lower() if lower or typ == 2 and r.random() < .8 else n
    if top == 9:
        for _ in range(r.choice([0, 0, 1])): nodes.append((1, r.choice([8, 10]), 0, "c", []))
        nodes.append((1, 1, r.choice([1, 1, 1, 3]), r.choice(["html", "html", "svg", "r"]), attrs())); path = [1, len(nodes)]
    while len(nodes) < size:
        m = r.random()
        if m < .3 and len(path) > (2 if top == 9 else 1): path.pop(); continue
        k = r.choice([1, 1, 1, 1, 3, 8, 7]) if r.random() < .5 else 1
        ns = r.choice([2, 3, 0]) if r.random() < foreign else 1
        nodes.append((path[-1], k, ns if k == 1 else 0, name() if k == 1 else "x", attrs() if k == 1 else []))
        if k == 1 and r.random() < .75: path.append(len(nodes))
    if top == 9 and r.random() < .3: nodes.append((1, 8, 0, "c", []))
    return typ, mode, nodes
def wire(enc, doc, ns, sels):
    typ, mode, nodes = doc
    o = ["2", str(enc), str(typ), str(mode), str(len(ns))]
    for p, u in ns: o += [ints(p), str(u)]
    o.append(str(len(nodes)))
    for u, k, n, name, at in nodes:
        o += [str(u), str(k), str(n), ints(name), str(len(at))]
        for an, pr, nm, v in at: o += [str(an), ints(pr), ints(nm), ints(v)]
    for s in sels: o.append(ints(s))
    return {"line": " ".join(o), "document": doc, "selectors": sels, "namespaces": ns}
def msimple(r, low):
    q = lambda v: r.choice(["'%s'" % v, '"%s"' % v]) if not re.fullmatch(r"[a-zA-Z][a-zA-Z-]*", v) else r.choice([v, "'%s'" % v])
    vv = lambda: q(r.choice(["b", "b", "B", "c", "bc", "a", "b-c", "", " ", "-", "é", "cb", "b b"]))
    at = r.choice(["t", "t", "T", "href", "class", "id", "data-x", "x"]); at = at.lower() if low else at
    return r.choice([lambda: "." + r.choice(["a", "b", "A", "ab", "a-b", "é"]), lambda: "." + r.choice(["a", "b"]), lambda: "#" + r.choice(["a", "b", "A", "id1", "ID1"]), lambda: "[%s]" % at,
                     lambda: "[%s%s%s%s]" % (at, r.choice(["=", "~=", "|=", "^=", "$=", "*="]), vv(), r.choice(["", "", " i", " s", " I"])), lambda: ":root", lambda: ":hover" if r.random() < .3 else ":ROOT"])()
def mcompound(r, low, nsp):
    t = r.choice(["", "div", "p", "a", "span", "*", "*", "DIV", "P", "x-y", "html"]); t = t.lower() if low else t
    if t and r.random() < (.5 if nsp else .1): t = r.choice(["*|", "|"] + [p + "|" for p in nsp if p]) + t
    s = t + "".join(msimple(r, low) for _ in range(r.choice([0, 0, 1, 1, 2]) if t else r.choice([1, 1, 2])))
    if nsp and r.random() < .3: s += "[%s]" % (r.choice(["*|", "|", "k|", ""]) + r.choice(["t", "href", "x"]) + r.choice(["", "=b", "*=b"]))
    if r.random() < .03: s += "::before"
    return s
def mselector(r, low, nsp=()):
    def cx():
        s = mcompound(r, low, nsp)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): s += r.choice([" ", " ", ">", "+", "~", " > ", " ~ ", "||"] if r.random() < .9 else [" "]) + mcompound(r, low, nsp)
        return s
    s = r.choice(["", " "]) + ", ".join(cx() for _ in range(r.choice([1, 1, 1, 2, 3])))
    return s if r.random() < .95 else s + r.choice([",", ">", " ]", "::", "[", "{"])
def C19(ctx):
    exe = build("sel", LIBS); r = ctx.rng
    check_model(ctx, "SelectorMC", "SelectorMatchMC.cfg" if ctx.quick else "SelectorMatchMCdeep.cfg")
    cases = []
    # every shape of small tree against every selector of two and three compounds over two names
    shapes = []
    def grow(nodes, path, size):
        if len(nodes) == size: shapes.append(list(nodes)); return
        for d in range(len(path), 0, -1):
            for k in ("p", "a", "#"):
                n = (path[d - 1], 1 if k != "#" else 3, 1 if k != "#" else 0, k, [])
                grow(nodes + [n], path[:d] + ([len(nodes) + 1] if k != "#" else []), size)
    for n in (3, 4, 5): grow([(0, 9, 0, "", []), (1, 1, 1, "html", [])], [1, 2], n)
    two = [a + o + b for a in ("p", "a", "*") for b in ("p", "a", "*") for o in (" ", ">", "+", "~")]
    three = [a + o + b + u + c for a in ("p", "a") for b in ("p", "*") for c in ("a", "*") for o in (" ", ">", "+", "~") for u in (" ", ">", "+", "~")]
    sample = shapes if not ctx.quick else r.sample(shapes, min(len(shapes), 260))
    for d in sample: cases.append(wire(r.randrange(3), (2, 1, d), [], r.sample(two, 12) + r.sample(three, 12) if ctx.quick else two + r.sample(three, 40)))
    # chains where an early candidate must be given up
    big = [[("div", c) for c in t] for t in itertools.product("ab", repeat=4)]
    for t in big:
        for line in (True, False):
            nodes = [(0, 9, 0, "", []), (1, 1, 1, "html", [])]; par = 2
            for _, c in t:
                nodes.append((par, 1, 1, "p", [(0, "", "class", c)]))
                if line: par = len(nodes)
            nodes.append((par, 1, 1, "a", []))
            ops = (" ", ">") if line else ("~", "+")
            cases.append(wire(r.randrange(3), (2, 1, nodes), [], [".%s%s.%s%sa" % (x, o, y, u) for x in "ab" for y in "ab" for o in ops for u in ops] + [".a%s.b%s.a%s*" % (o, u, ops[0]) for o in ops for u in ops]))
    # attribute operators: every value against every operand
    for chunk in range(0, len(VALS), 6):
        nodes = [(0, 9, 0, "", []), (1, 1, 1, "html", [])] + [(2, 1, 1, "p", [(0, "", "t", v)]) for v in VALS[chunk:chunk + 6]]
        sels = ["[t%s'%s'%s]" % (o, w, i) for o in ("=", "~=", "|=", "^=", "$=", "*=") for w in ["", " ", "b", "B", "bc", "b-c", "c", "-", "b b", "é"] for i in ("", " i", " s")]
        for k in range(0, len(sels), 30): cases.append(wire(r.randrange(3), (r.choice([1, 2]), 1, nodes), [], sels[k:k + 30]))
    for mode, typ in ((1, 2), (2, 2), (3, 2), (1, 1)):
        nodes = [(0, 9, 0, "", []), (1, 1, 1, "html", [])] + [(2, 1, 1, r.choice(["p", "P"]), [(0, "", "class", c), (0, "", "id", i)]) for c, i in zip(CLS, ["a", "A", "id1", "b", "ID1"] * 3)]
        cases.append(wire(r.randrange(3), (typ, mode, nodes), [], [".a", ".A", ".b", ".B", ".ab", ".é", "#a", "#A", "#id1", "#ID1", "p", "P", "*", "p.a#a", "[id]", "[ID]", "[Class~=a]"]))
    for _ in range(700 if ctx.quick else 12000):
        d = document(r, r.randint(3, 14), types=(2, 2, 2, 1))
        cases.append(wire(r.randrange(3), d, [], [mselector(r, False) for _ in range(8)]))
    nsm = [[("k", 4), ("s", 3), ("h", 1)], [("k", 4), ("", 1)], [("", 3), ("s", 3)], [("k", 1), ("s", 2)]]
    for _ in range(250 if ctx.quick else 5000):
        ns = r.choice(nsm); d = document(r, r.randint(3, 12), foreign=.45, types=(2, 1))
        cases.append(wire(r.randrange(3), d, ns, [mselector(r, False, [p for p, _ in ns]) for _ in range(8)]))
    for _ in range(120 if ctx.quick else 2000):
        d = document(r, r.randint(2, 10), lower=True, modes=(1,), top=r.choice([1, 11]))
        cases.append(wire(r.randrange(3), d, [], [s for s in (mselector(r, True) for _ in range(6)) if "id" not in s.lower() and "root" not in s.lower()] or ["*"]))
    for _ in range(6 if ctx.quick else 60):
        d = document(r, 60, types=(2,)); cases.append(wire(r.randrange(3), d, [], [mselector(r, False) for _ in range(4)]))
    for c in cases: c["line"] = c["line"]
    ctx.extra["rule"] = "trees of up to five nodes against selectors of up to three compounds, ancestor and sibling chains that need backtracking, every attribute operator with every value, case rules per document type and mode, random documents (UTF-8, UTF-16, UTF-32 nodes) and selectors, namespaces, fragments; queried from every node"
    conformance(ctx, exe, "SelTrace", uniq(cases), corrupt=corrupt, ncanary=24)
    check_known(ctx, exe, "SelTrace", cfg="SelTraceStrict.cfg")
