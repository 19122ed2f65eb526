from vlib import *
import itertools
ASSUMPTIONS = {"C14": ["whole documents (fragment parsing has no public entry that sets its context)", "parse errors are not compared", "a missing DOCTYPE system identifier and an empty one look the same in a token of the library",
                       "contents of template elements are children of the element in the library's tree"]}
LIBS = ["atom_tbl", "idx_ptr", "idx_cp", "encoding"]
ENV = {"SPECDATA": os.path.join(SPEC, "data")}
def case(t, kind=0, script=0, before=()):
    return {"line": " ".join([str(kind), str(script), ints(t)] + [ints(b) for b in before]), "text": t, "kind": kind, "script": script, "before": list(before)}
def corrupt(ev, r):
    e = r.choice(ev)
    if not e.get("r"): return False
    x = r.choice(e["r"]); m = r.randrange(3)
    if m == 0: x["l"] += 1
    elif m == 1: x["k"] = "com" if x["k"] != "com" else "text"
    elif x["k"] in ("text", "com"): x["d"] = x["d"] + [33]
    else: x["n"] = x["n"] + [120]
    return True
TAGS = ("a abbr address annotation-xml applet area article aside audio b base basefont bgsound big blockquote body br button canvas caption center cite code col colgroup data dd desc details dialog dir div dl dt em embed fieldset figcaption "
        "figure font footer foreignobject form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i iframe image img input isindex kbd keygen label li link listing main malignmark map marquee math menu menuitem meta mglyph mi mn mo ms mtext nav nobr "
        "noembed noframes noscript object ol optgroup option p param plaintext pre q rb rp rt rtc ruby s sarcasm script section select small source span strike strong style sub summary sup svg table tbody td template textarea tfoot th thead "
        "time title tr track tt u ul var video wbr xmp x-y").split()
# texts that lead into each insertion mode
MODES = {"initial": "", "beforehtml": "<!doctype html>", "beforehead": "<!doctype html><html>", "head": "<!doctype html><head>", "noscript": "<!doctype html><head><noscript>", "afterhead": "<!doctype html><head></head>", "body": "<!doctype html><body>",
         "bodyp": "<!doctype html><p>a", "bodyb": "<!doctype html><p><b class=x>a<div>", "bodyli": "<ul><li>a<div>", "bodybutton": "<!doctype html><div><button><p>a", "bodyform": "<form><div>", "ruby": "<!doctype html><ruby>a<rtc>b<rt>c", "dl": "<dl><dt>a<dd><p>b",
         "object": "<b><object><i>", "h1": "<h1><span>", "afe": "<p><b><i><u></p>", "table": "<!doctype html><p><table>", "quirktable": "<p><table>", "tablefmt": "<table><b>x", "tabletext": "<table>  ", "caption": "<table><caption><b>", "colgroup": "<table><colgroup>", "tablebody": "<table><tbody>", "row": "<table><tbody><tr>",
         "cell": "<table><tbody><tr><td><b>", "select": "<!doctype html><p><select>", "selectopt": "<select><optgroup><option>a", "selecttable": "<table><tr><td><select><option>", "template": "<template>", "templatetable": "<template><tr>", "templatecell": "<template><td>a", "templatebody": "<div><template><p>b<i>", "templatehead": "<head><template><col>",
         "tabletemplate": "<table><template><b>", "afterbody": "<body>a</body>", "frameset": "<frameset>", "afterframeset": "<frameset></frameset>", "afterafterbody": "<p>a</body></html>", "afterafterframeset": "<frameset></frameset></html>", "svg": "<p>a<svg>", "svgfo": "<svg><g><foreignObject><p>a", "svgdesc": "<svg><desc>",
         "math": "<p><b><math>", "mi": "<math><mi>", "annot": "<math><annotation-xml>", "annothtml": "<math><annotation-xml encoding='Text/HTML'>", "svgtable": "<table><svg>", "celltable": "<table><td><table><td>a", "text": "<!doctype html><title>a"}
TAILS = ["x", "<p>y", "</p>z", "<b>w", "<td>v", "</table>u", "<!--c-->", " ", "<tr><td>t", "<select><option>s", "</div>r", "<li>", "</body> q", "<svg><g/><p>o", "<a href=b>n<a>m", "<input>", "<frameset><frame>", "<head>", "<html lang=b>", "<body id=c>", "</b></i>l", "<template>k", "</template>j", "<table>i"]
ATTRS = ["", "", "", "", " id=a", " class='x y'", " type=hidden", " type=HIDDEN", " type=text", " encoding=text/html", " color=red", " size=1", " viewbox=1", " definitionurl=u", " xlink:href=u", " xmlns:xlink=v", " xmlns=w", " xml:lang=en", " id=b class=z id=c", "/", " a=b /"]
FMT = ["<a>", "<b>", "<i>", "</a>", "</b>", "</i>", "<p>", "</p>", "<div>", "</div>", "x", "<table>", "<tr>", "<td>", "</table>", "<nobr>", "</nobr>", "<object>", "</object>", "<button>", "<ul>", "<li>", "<b class=a>", "<font size=1>", "</font>", "<h1>", "<center>", "<code>", "</code>", "<em>", "</em>"]
TBL = ["<table>", "</table>", "<caption>", "</caption>", "<colgroup>", "</colgroup>", "<col>", "<tbody>", "</tbody>", "<thead>", "<tfoot>", "<tr>", "</tr>", "<td>", "</td>", "<th>", "</th>", "x", " ", "<b>", "</b>", "<input type=hidden>", "<input>", "<form>", "</form>", "<script>s</script>", "<style>t</style>", "<template>", "</template>", "<select>", "</select>", "<p>", "<div>", "</div>", "<!--c-->", "<svg>", "</svg>", "<option>", "\x00", "<a>", "</body>", "</html>", "<textarea>\n\n</textarea>"]
FOR = ["<svg>", "</svg>", "<math>", "</math>", "<mi>", "</mi>", "<mtext>", "<annotation-xml>", "<annotation-xml encoding='text/html'>", "<annotation-xml encoding=application/xhtml+XML>", "</annotation-xml>", "<foreignObject>", "</foreignObject>", "<desc>", "<title>", "</title>", "<p>", "</p>", "<b>", "</b>", "<div>", "</div>", "x", "\x00", " ", "<g/>", "<g>", "</g>", "<script>", "</script>", "<font>", "<font color=a>", "<font FACE=a>", "<font size=b>", "<mglyph>", "<malignmark/>", "<table>", "<td>", "</table>", "<br>", "</br>", "<svg viewBox=a attributename=b xlink:href=c>", "<math definitionurl=a XML:lang=b>", "<clippath>", "<fegaussianblur stddeviation=1>", "<![CDATA[a]]>", "<!--c-->", "<image>", "<select>", "<template>", "</template>", "<style>", "</style>", "<body>", "<html>", "<head>", "<a>", "</a>", "<textarea>", "</body>", "<li>", "<span>"]
HEAD = ["<!doctype html>", "<!--a-->", " ", "x", "<html>", "<html lang=a>", "</html>", "<head>", "</head>", "<body>", "<body id=a>", "</body>", "<title>", "</title>", "<base>", "<link>", "<meta charset=utf-8>", "<script>", "</script>", "<noscript>", "</noscript>", "<style>", "</style>", "<template>", "</template>", "<frameset>", "</frameset>", "<frame>", "<noframes>", "</noframes>", "<p>", "<br>", "</br>", "</p>", "<input type=hidden>", "\n", "<div>", "<hr>", "<textarea>", "<bgsound>", "<basefont>", "</div>", "<head>"]
MISC = ["<" + t + ">" for t in TAGS] + ["</" + t + ">" for t in TAGS]
FAMILIES = {"fmt": ["<a>", "</a>", "<b>", "</b>", "<p>", "</p>", "<div>", "</div>", "<nobr>", "x", "<table>", "<td>"],
            "tbl": ["<table>", "</table>", "<tr>", "<td>", "</td>", "<caption>", "<col>", "<tbody>", "x", " ", "<b>", "<form>"],
            "tmpl": ["<template>", "</template>", "<select>", "</select>", "<option>", "<table>", "<td>", "<col>", "x", "<b>", "<div>"],
            "for": ["<svg>", "<math>", "<desc>", "<mi>", "<p>", "</p>", "</svg>", "<b>", "x", "<table>", "<td>", "</b>"],
            "head": ["<html>", "<head>", "</head>", "<body>", "</body>", "</html>", "<frameset>", "</frameset>", "x", " ", "<!--c-->", "<template>", "<p>"],
            "block": ["<ul>", "<li>", "</li>", "<p>", "<button>", "</button>", "<form>", "</form>", "<dd>", "<object>", "<b>", "x"]}
# what an element is (special, formatting, a scope marker, closed by implication, void, foreign) shows in what goes on around it
AROUND = ["<b><{0}>a</b>b", "<b><{0}></{0}>a</b>b", "<b><p><{0}>a</b>b", "<ul><li><{0}><li>x", "<dl><dd><{0}><dt>x", "<p><{0}><p>x", "<p><{0}></p>x", "<ul><li><{0}></li>x", "<x-z><{0}></x-z>x", "<p>a<{0}>b</p>c", "<{0}><{0}>x</{0}>y", "<a><{0}><a>x", "<a><{0}></a>x",
          "<table><tr><td><{0}></td>x", "<table><caption><{0}></caption>x", "<table><{0}>x</{0}>y", "<svg><{0}>x</svg>y", "<svg><{0}/><g>x</{0}>y", "<math><{0}><b>x</math>y", "<math><{0}/>x</{0}>y", "<svg><foreignObject><{0}>x</foreignObject>y", "<svg><desc><p><{0}></p>x", "<math><mi><{0}></mi>x", "<ruby><{0}><rt>x",
          "<ruby><rtc><{0}><rp>x", "<h1><{0}></h1>x", "<h1><{0}><h2>x", "<button><{0}><button>x", "<nobr><{0}><nobr>x", "<select><{0}>x</select>y", "<option>a<{0}><option>x", "<form><{0}></form><form>x", "<div><{0}></div>x", "<template><{0}></template>x", "<template><{0}>x", "<object><{0}></object>x", "<{0} id=q>x<p>y</{0}>z",
          "<{0}>\nx", "<head><{0}>x", "<address><{0}></address>x", "<table><tbody><tr><td><p><{0}><tr>x", "<p><b><{0}></p>x<p>y", "<dl><dt><{0}></dt>x", "<frameset><{0}>", "<svg><title><{0}></title>x", "<math><annotation-xml><{0}>x", "<applet><p><{0}></applet>x", "<b><button><{0}></b>x", "<option><{0}><hr>x"]
def texts(r, pieces, n): return "".join(r.choice(pieces) for _ in range(n))
def C14(ctx):
    exe = build("htmltree", LIBS); r = ctx.rng; q = ctx.quick
    cases = []
    for m, pre in MODES.items():
        for t in TAGS:
            for e in (0, 1):
                a = r.choice(ATTRS) if not e else ""
                cases.append(case(pre + ("</" if e else "<") + t + a + ">" + r.choice(TAILS) + (r.choice(TAILS) if r.random() < .5 else ""), script=r.randrange(2) if t == "noscript" or m == "noscript" else 0))
        for t in TAILS + ["\x00", "\n", "\f", "x y", "<!doctype html>", "\x00x", "&amp;", " \x00 ", "\u3042"]:
            cases.append(case(pre + t)); cases.append(case(pre + t + r.choice(TAILS)))
    D = json.load(open(os.path.join(SPEC, "data", "htmltree.json")))
    def u(x): return "".join(map(chr, x))
    for t in TAGS:
        for k, a in enumerate(AROUND): cases.append(case(("<!doctype html>" if r.random() < .7 else "") + a.format(t), script=int(t == "noscript" and r.random() < .5)))
    # names and attributes that foreign content adjusts, in other letter case, cut and in HTML content
    for a, b in D["svgtags"]:
        for t in (u(a), u(b), u(a)[:-1], u(a).upper()): cases.append(case("<svg><%s x=1>a</%s>b<g/></svg><%s>c" % (t, r.choice((t, u(a), u(b))), t))); cases.append(case("<svg><%s/><math><%s>a</%s>b" % (t, t, t)))
    for nm in [u(x[i]) for k in ("svgattrs", "mathattrs") for x in D[k] for i in (0, 1)] + [u(x["n"]) for x in D["foreign"]]:
        for t in (nm, nm[:-1], nm.upper()): cases.append(case("<svg %s=1><g %s=2 a=3/></svg><math %s=4><mi %s=5></math><p %s=6>" % (t, t, t, t, t)))
    # every sequence of up to 3 (thorough: 4) tokens of the families the model enumerates
    def seqs(al, n): return ("".join(x) for k in range(1, n + 1) for x in itertools.product(al, repeat=k))
    for nm, al in FAMILIES.items():
        for t in seqs(al, 3 if q else 4): cases.append(case(t))
    # DOCTYPEs: each identifier of the quirks lists, whole, in other letter case, cut, extended
    pubs = [u(x) for k in ("qexact", "qprefix", "q401", "lprefix", "qsys") for x in D[k]]
    for p in pubs:
        for v in (p, p + "x", p[:-1], p.swapcase(), "x" + p):
            for s in ("", ' "http://www.w3.org/TR/html4/strict.dtd"', ' "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd"') if v == p else ("", ' "s"'):
                cases.append(case('<!DOCTYPE html PUBLIC "' + v + '"' + s + "><p><table>"))
            cases.append(case('<!DOCTYPE html SYSTEM "' + v + '"><p><table>'))
    for t in ("<!doctype>", "<!doctype html>", "<!DOCTYPE HTML>", "<!doctype htm>", "<!doctype html system 'about:legacy-compat'>", "<!doctype html public 'x'>", "<!doctype html x>", "<!doctype html public>", "<!doctype html system 'x' y>", "<!doctype html", "<!doctype html><!doctype html>", "<!--a--><!doctype html>", " <!doctype html>", "x<!doctype html>", "<p><!doctype html>", "<!doctype a public 'b' 'c'>"):
        for k in range(6): cases.append(case(t + "<p><table>", kind=k))
    for nm, al in (("fmt", FMT), ("tbl", TBL), ("for", FOR), ("head", HEAD)):
        for _ in range(1200 if q else 20000): cases.append(case(texts(r, al, r.randint(2, 7)), script=int(r.random() < .1)))
        for _ in range(400 if q else 6000): cases.append(case(texts(r, al, r.randint(8, 22))))
    for _ in range(600 if q else 20000): cases.append(case(texts(r, MISC + ["x", " ", "<!--c-->"], r.randint(2, 14))))
    ALL = FMT + TBL + FOR + HEAD + MISC
    for _ in range(600 if q else 20000): cases.append(case(texts(r, ALL, r.randint(2, 14)), kind=r.randrange(3), script=r.randrange(2)))
    # the whole-text interface; the ends of texts cut off anywhere
    for _ in range(900 if q else 12000):
        t = texts(r, ALL + ["<!--c", "<p class=", "&am", "&notit", "</", "<!doctype htm", "\r", "]]>", "<![CDATA[", "\u3042\U0001f600"], r.randint(1, 9))
        if r.random() < .4: t = t[:r.randint(0, len(t))]
        cases.append(case(t, kind=r.choice((0, 3, 4, 5))))
    # one parser for several documents, each parsed to the end or given up
    for _ in range(500 if q else 6000):
        b = [texts(r, ALL, r.randint(1, 6))[:r.randint(1, 60)] for _ in range(r.randint(1, 3))]
        cases.append(case(texts(r, ALL, r.randint(1, 8)), kind=r.randrange(3), script=r.randrange(2), before=b))
    # deep nesting and long runs
    for t in ("b", "div", "a", "i class=x", "svg", "table><tr><td", "ul><li", "template", "font size=1", "nobr", "p><b", "em><p", "button", "object", "select", "math><mi", "svg><desc"):
        for k in (9, 17, 30) if q else (9, 17, 30, 60):
            cases.append(case(("<" + t + ">") * k + "x" + "</b></p></a>" * 3 + "y")); cases.append(case(("<" + t + ">z") * k))
    for k in (3, 8, 12): cases.append(case("<b><i>" * k + "<p>x" + "</b>" * k + "</i>" * k)); cases.append(case("<a>" + "<b>" * k + "<div>" * k + "x</a>y")); cases.append(case("<p>" + "<b class=a>" * k + "<p>x"))
    # more formatting elements than the inner loop of the adoption agency keeps, with every end tag
    names = ["a", "b", "i", "u", "s", "em", "code", "big", "nobr", "font", "tt", "small", "strong", "strike"]
    for _ in range(700 if q else 8000):
        x = r.sample(names, r.randint(3, 9)); t = "".join(f"<{e}>" if r.random() < .8 else f"<{e} id={i}>" for i, e in enumerate(x)); bl = "".join(r.choice(["<p>", "<div>", "<ul><li>", "<b>", "<i>", "z"]) for _ in range(r.randint(1, 4)))
        y = [r.choice(x) for _ in range(r.randint(1, 3))] if r.random() < .6 else x[:2]
        cases.append(case(t + ("w" if r.random() < .5 else "") + bl + "x" + "".join(f"</{e}>" + r.choice(["", "y", "<p>y"]) for e in y)))
    # what foreign elements bound a scope: end tags of HTML elements met inside them, and start tags that close by implication
    for x in ("math", "svg"):
        for t in ("mi", "mo", "mn", "ms", "mtext", "mrow", "annotation-xml", "annotation-xml encoding=text/html", "annotation-xml encoding=image/svg", "foreignObject", "desc", "title", "g", "factorial", "math", "svg", "template", "table", "html", "caption", "td", "object", "marquee", "applet", "button", "ol", "ul", "select", "option"):
            for o, k in (("<p>", "</p>"), ("<div>", "</div>"), ("<ul><li>", "</li>"), ("<dl><dd>", "</dd>"), ("<h1>", "</h2>"), ("<button>", "</button>"), ("<form>", "</form>"), ("<b>", "</b>"), ("<object>", "</object>"), ("<table><tr><td>", "</td>"), ("<table><tr><td>", "</table>"), ("<table><caption>", "</caption>"), ("<p>", "<p>"), ("<ul><li>", "<li>"), ("<button>", "<button>"), ("<div>", "</body>"), ("<div>", "</html>"), ("<x-y>", "</x-y>"), ("<template>", "</template>"), ("<a>", "<a>"), ("<nobr>", "<nobr>")):
                cases.append(case("%s<%s><%s>%sx" % (o, x, t, k)))
                if r.random() < (.25 if q else 1): cases.append(case("%s<%s><%s><%s>%sx" % (o, x, t, r.choice(("g", "mrow", "span", "i")), k)))
    # what closes what in a select
    for x in itertools.product(["<option>", "<optgroup>", "</option>", "</optgroup>", "x", "<hr>"], repeat=4 if q else 5): cases.append(case("<select>" + "".join(x)))
    # select and template among tables: the insertion mode is found again from the stack
    al = ["<select>", "</select>", "<template>", "</template>", "<option>", "<tr>", "<td>", "<table>", "</table>", "x", "<caption>", "</td>", "<colgroup>", "<tbody>", "<input>"]
    for pre in ("<select>", "<table><tr><td><select>", "<table><caption><select>", "<template><select>", "<table><select>", "<table><template><select>", "<div><select>", "<table><tr><td><template><tr><td><select>"):
        for k in (1, 2): cases += [case(pre + "".join(x)) for x in itertools.product(al, repeat=k)]
        for _ in range(150 if q else 3000): cases.append(case(pre + texts(r, al, r.randint(3, 8))))
        for x in al: cases.append(case(pre + "<template></template>" + x + "y")); cases.append(case(pre + "<template>z</template><option>" + x + "y<tr>"))
    # more than fits in 8 bits: levels, siblings, attributes, texts, formatting elements
    n = 300
    for t in ("<div>" * n + "x", "<p>x" * n, "<b>" * n + "<p>x", "<div><b>" * (n // 2) + "</div>" * 20 + "x", "<p " + " ".join(f"b{i}={i}" for i in range(n)) + ">x", "<p>" + "x" * n + "<!--" + "y" * n + "-->", "<table>" + "<tr><td>x" * (n // 2) + "</table>y",
              "<ul>" + "<li>x" * n, "".join(f"<b id={i}>" for i in range(n // 6)) + "</p><p>x" + "</b>" * (n // 6), "<table>" + "x" * n + "<tr>", "<select>" + "<option>x" * n, "<svg>" + "<g>" * n + "<p>x", "<template>" * (n // 4) + "x", "<a>" * (n // 2), "<" + "y" * n + ">x</" + "y" * n + ">z"):
        cases.append(case(t))
    ctx.extra["rule"] = "recorded trees (nodes in document order with depth, namespaces, names, attributes, data, DOCTYPE identifiers, quirks mode) equal FlatDoc(RunDoc(text)) of HtmlTree.tla"
    fams = ["fmt", "tbl", "tmpl", "for", "head", "block"]
    check_models(ctx, [("HtmlTreeMC", "HtmlTreeMC_%s%s.cfg" % (f, "" if q else "deep")) for f in fams], par=3 if q else 2)
    conformance(ctx, exe, "HtmlTreeTrace", cases, corrupt=corrupt, env=ENV, ncanary=24)
    check_known(ctx, exe, "HtmlTreeTrace", cfg="HtmlTreeTraceStrict.cfg", env=ENV)
