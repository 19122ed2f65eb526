from vlib import *
import g_htmltree as T
ASSUMPTIONS = {"C15": ["scripting disabled (noscript content is written escaped)", "the attribute escaping of the Standard up to 2024: & no-break space \" (later editions also escape < and >)", "contents of template elements are children of the element in the library's tree",
                       "which trees read back equal is decided by the specification's own parser (pre, textarea, listing with a leading newline, plaintext, misnested content and the like do not)"]}
ENV = {"SPECDATA": os.path.join(SPEC, "data")}
def parsed(t, tree=0, typ=0, idx=0): return {"line": " ".join([str(tree), "0", str(typ), str(idx), ints(t)])}
NS = {"": 0, "html": 1, "math": 2, "svg": 3, "xlink": 4, "xml": 5, "xmlns": 6}
def el(l, n, a=(), ns="html", pre=""): return " ".join([str(l), "0", str(NS[ns]), ints(pre), ints(n), str(len(a))] + [" ".join([str(NS[x[0]]), ints(x[1]), ints(x[2]), ints(x[3])]) for x in a])
def tx(l, d): return "%d 1 %s" % (l, ints(d))
def com(l, d): return "%d 2 %s" % (l, ints(d))
def pi(l, t, d): return "%d 3 %s %s" % (l, ints(t), ints(d))
def dt(l, n): return "%d 4 %s" % (l, ints(n))
def built(nodes, how=1, tree=0, typ=0, idx=0): return {"line": " ".join([str(tree), str(how), str(typ), str(idx)] + nodes)}
VOID = "area base br col embed hr img input link meta param source track wbr basefont bgsound frame keygen".split()
RAW = "style script xmp iframe noembed noframes plaintext".split()
OTHER = "div p span b a ul li table tbody tr td caption select option textarea title noscript template pre listing svg math image menuitem x-y h1 button form head body html frameset rt".split()
PIECES = ["&", "<", ">", "\u00a0", '"', "'", "a", "&lt;", "&amp;", "&nbsp;", "&quot", "</b>", "<!--", "-->", " ", "\n", "\t", "=", "`", "\u3042", "\U0001f600", "\u00a1", "\u009f", ";", "&#38;", "]]>", "</script>", "?", "\u0100", "\u2028", "\ufeff", "\ufffd", "\x7f"]
def text(r, n=4): return "".join(r.choice(PIECES) for _ in range(r.randint(1, n)))
ATTRN = ["id", "class", "href", "a", "b-c", "xlink", "xmlns", "data-x", "lang", "viewBox", "definitionURL", "\u3042", "x:y"]
def attrs(r):
    a = []
    for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3))):
        ns = r.choice(["", "", "", "", "xlink", "xml", "xmlns", "svg", "html"])
        n = r.choice(["href", "lang", "xmlns", "base", "xlink", "foo"]) if ns else r.choice(ATTRN)
        a.append((ns, "" if not ns else r.choice([ns, "", "p"]), n, text(r) if r.random() < .8 else ""))
    return a
def tree(r, n):
    out = []; open_ = [0]      # depths where a child may be put
    last = None; depth = 0
    for _ in range(n):
        l = r.randint(0, depth); k = r.random()
        if k < .6:
            ns = r.choice(["html"] * 6 + ["svg", "math", "", "xlink", "xml"])
            nm = r.choice(r.choice([VOID, RAW, OTHER, OTHER]))
            out.append(el(l, nm, attrs(r), ns, r.choice(["", "", "q"]) if ns != "html" or r.random() < .1 else "")); depth = l + 1
        elif k < .85: out.append(tx(l, text(r))); depth = l
        elif k < .93: out.append(com(l, text(r))); depth = l
        elif k < .97: out.append(pi(l, r.choice(["xml", "a", "php"]), text(r))); depth = l
        else: out.append(dt(l, r.choice(["html", "a", "", "svg:x"]))); depth = l
    return out
SK = [el(0, "html"), el(1, "head"), el(1, "body")]
def corrupt(ev, r):
    e = r.choice(ev)
    if e["op"] != "ser": return False
    m = r.randrange(3)
    if m == 0: e["out"] = e["out"] + [60]
    elif m == 1 and e["out"]: i = r.randrange(len(e["out"])); e["out"] = e["out"][:i] + [e["out"][i] + 1] + e["out"][i + 1:]
    elif m == 2 and e["out"]: e["out"] = e["out"][:-1]
    else: return False
    return True
def C15(ctx):
    exe = build("htmlser", T.LIBS); r = ctx.rng; q = ctx.quick
    cases = []; R = lambda: (r.randrange(3), r.randrange(4))
    # every element, in every namespace, with and without content, as the root of what is written and inside it
    for ns in ("html", "svg", "math", "", "xlink"):
        for nm in VOID + RAW + OTHER:
            for body in ([], [tx(1, "a<&>\u00a0\"")], [el(1, "b"), tx(2, "&")]):
                for how in (1, 2): cases.append(built([el(0, nm, [("", "", "id", "<&>\u00a0\"'")], ns, "q" if ns in ("", "xlink") and body else "")] + body + [tx(0, "<")], how, *R()))
                cases.append(built([el(0, "div")] + [el(1, nm, (), ns)] + [x.replace("1", "2", 1) if x[0] == "1" else x.replace("2", "3", 1) for x in body], 1, *R(), 2))
    # every character of the basic range and some beyond, in text, raw text, values and comments
    for c in list(range(1, 0x180)) + [0x2028, 0x3042, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        ch = chr(c)
        cases.append(built(SK + [el(2, "p", [("", "", "title", ch + "a" + ch)]), tx(3, ch), com(3, "c" + ch), el(3, "style"), tx(4, ch)], 1, *R()))
        cases.append(built(SK + [tx(2, "a" + ch + ch), el(2, "img", [("", "", "alt", "x" + ch)]), tx(2, ch + "b")], 1, *R()))
    for a in PIECES:
        for b in PIECES:
            cases.append(built(SK + [el(2, "div", [("", "", "title", a + b)]), tx(3, a + b), el(3, r.choice(RAW)), tx(4, a + b)], 1, *R()))
    for _ in range(2500 if q else 40000): cases.append(built(tree(r, r.randint(1, 9)), r.choice((1, 1, 2)), *R(), idx=r.choice((0, 0, r.randrange(10)))))
    for _ in range(500 if q else 8000): cases.append(built(SK + [x.replace(x.split(" ", 1)[0], str(int(x.split(" ", 1)[0]) + 2), 1) for x in tree(r, r.randint(1, 20))], 1, *R(), idx=r.choice((0, 0, r.randrange(20)))))
    # parsed documents, of the same texts as tree construction
    ALL = T.FMT + T.TBL + T.FOR + T.HEAD + T.MISC
    ok = [x for x in ALL if "\x00" not in x]
    for _ in range(2500 if q else 40000): cases.append(parsed("".join(r.choice(ok + ["&lt;b&gt;", "&amp;amp;", "&nbsp;", '<i title="&quot;&amp;">', "<p>", "</p>", "<!doctype html>"]) for _ in range(r.randint(1, 9))), *R(), idx=r.choice((0, 0, 0, r.randrange(10)))))
    for m in T.MODES.values():
        for t in T.TAILS: cases.append(parsed(m + t, *R()))
    for k in (10, 60, 200) if q else (10, 60, 200, 400):
        for nm in ("div", "b", "svg", "br"): cases.append(built(SK + [el(2 + i, nm) for i in range(k)] + [tx(2 + k, "x")], 1, *R()))
    ctx.extra["rule"] = "written text = Ser(tree) of HtmlSerialize.tla; a tree for which the specification's parser undoes the specification's serialiser is read back equal by the library"
    check_models(ctx, [("HtmlSerializeMC", "HtmlSerializeMC_%s%s.cfg" % (f, "" if q else "deep")) for f in ("esc", "raw", "for", "tbl", "fmt", "head")], par=3 if q else 2)
    conformance(ctx, exe, "HtmlSerializeTrace", cases, corrupt=corrupt, env=ENV, ncanary=24)
