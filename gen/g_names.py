from vlib import *
import json
ASSUMPTIONS = {"C27": ["texts are well-formed in their encoding form", "elements are compared only while the names of their attributes differ", "nodes of one kind other than elements are not compared (the library declares no comparison of them)"]}
K = ["new", "newhtml", "setns", "setpre", "setname", "push", "ans", "apre", "aname", "aval", "find", "has", "eq", "eqa", "is", "save", "npush", "isattr"]
def corrupt(ev, r):
    e = r.choice(ev)
    if e["op"] == "kind": e["type"] += 1; return True
    k = r.randrange(6)
    if k == 0 and e["rs"] and e["k"] != "eq": e["rs"][r.randrange(len(e["rs"]))] += 1; return True
    if k == 1: e["sh"]["ne"] += 1; return True
    if k == 2: e["sh"]["q"] = e["sh"]["q"] + [58]; return True
    if k == 3 and e["sh"]["a"]: e["nd"]["a"][-1]["v"] = e["nd"]["a"][-1]["v"] + [97]; return True
    if k == 4 and e["sh"]["a"]: e["sh"]["a"] = e["sh"]["a"][:-1]; return True
    if k == 5: e["nd"]["ns"] = e["nd"]["ns"] + [120]; return True
    return False
def C27(ctx):
    exe = build("names", ["atom_tbl", "encoding", "idx_ptr", "idx_cp"]); r = ctx.rng; q = ctx.quick
    T = json.load(open(os.path.join(VERIF, "spec/data/names.json"))); S = lambda v: "".join(map(chr, v))
    T = {k: [S(x) for x in v] for k, v in T.items()}
    def ref(kind, s, e=None):      # a name as an enumerator or as a string
        if s in T[kind] and (r.random() < .5 if e is None else e): return (T[kind].index(s) + 1, "")
        return (0, s)
    N0 = (0, "")
    def call(k, ns=N0, pre="", n=N0, v="", i=0): return (K.index(k), ns, pre, n, v, i)
    def line(w, calls): return {"line": "1 %d %d %s" % (w, len(calls), " ".join("%d %d %s %s %d %s %s %d" % (k, ns[0], ints(ns[1]), ints(pre), n[0], ints(n[1]), ints(v), i) for k, ns, pre, n, v, i in calls)),
                                "type": ["u8", "u16", "u32"][w], "calls": [[K[k], ns, pre, n, v, i] for k, ns, pre, n, v, i in calls]}
    cases = []
    # every known name of each kind, as string and as enumerator, and names near it
    near = lambda s: r.choice([s[:-1], s + "x", s.upper() if s.upper() != s else s.lower(), s[1:], s[::-1], s + "\u3042"])
    tags, attrs, nss = T["tag"], T["attr"], T["ns"]
    for j, t in enumerate(tags):
        ns = r.choice(nss + ["", "urn:x"])
        cs = [call("new", ref("ns", ns), r.choice(["", "p"]), ref("tag", t, 0)), call("is", n=ref("tag", t, 1)), call("is", n=ref("tag", r.choice(tags))), call("is", n=ref("tag", near(t))), call("save"), call("newhtml", n=ref("tag", t, 1)), call("eq"), call("setns", ref("ns", ns)), call("eq"), call("setname", n=ref("tag", near(t))), call("eq"), call("setname", n=ref("tag", t)), call("eq")]
        cases.append(line(j % 3, cs))
    for j, t in enumerate(attrs):
        ns = r.choice(nss + ["", "", ""]); pre = r.choice(["", "", "xlink", "p"])
        o = r.choice(attrs); cs = [call("newhtml", n=ref("tag", r.choice(tags))), call("push", ref("ns", ns), pre, ref("attr", t, 0), "1"), call("find", ref("ns", ns), pre, ref("attr", t, 1)), call("find", ref("ns", ns), pre, ref("attr", t, 0)), call("find", n=ref("attr", t, 1)), call("find", n=ref("attr", t, 0)), call("has", ref("ns", ns), pre, ref("attr", t)),
              call("eqa", ref("ns", ns), pre, ref("attr", t, 1), "", 1), call("eqa", ref("ns", ns), pre, ref("attr", near(t)), "", 1), call("isattr", n=ref("attr", t, 1), i=1), call("isattr", n=ref("attr", near(t)), i=1), call("aname", n=ref("attr", o, 1), i=1), call("find", ref("ns", ns), pre, ref("attr", o, 0)), call("find", n=ref("attr", t, 0)), call("aname", n=ref("attr", t, 1), i=1), call("eqa", n=ref("attr", t, 0), i=1)]
        cases.append(line(j % 3, cs))
    # histories
    P = ["", "", "", "p", "xlink", "\U0001f600"]; V = ["", "1", "\u3042", "\U0001f600x"]
    for _ in range(1500 if q else 40000):
        at = r.sample(attrs, 3) + ["x", "\u3042", r.choice(attrs).upper(), ""][:r.randint(1, 4)]; tg = r.sample(tags, 2) + ["x-y", "\U0001f600", ""][:r.randint(1, 3)]; nn = r.sample(nss, 2) + ["", "", "urn:x"]
        cs = []; na = 0; names = []
        anm = lambda: r.choice(names) if names and r.random() < .6 else (r.choice(nn), r.choice(P), r.choice(at))
        for _ in range(r.randint(3, 22)):
            k = r.choice(["new", "newhtml", "setns", "setpre", "setname"] + ["push"] * 6 + ["npush"] * 2 + ["ans", "apre", "aname", "aval"] * 2 + ["find"] * 5 + ["has"] * 2 + ["eq"] * 3 + ["eqa"] * 3 + ["is", "isattr", "save", "save"])
            if k in ("ans", "apre", "aname", "aval", "eqa", "isattr"):
                if not na: continue
                a = anm(); cs.append(call(k, ref("ns", a[0]), a[1], ref("attr", a[2]), r.choice(V), r.randint(1, na)))
            elif k in ("push", "npush"):
                a = (r.choice(nn), r.choice(P), r.choice(at)) if r.random() < .85 or not names else r.choice(names)
                cs.append(call(k, ref("ns", a[0]), a[1], ref("attr", a[2]), r.choice(V))); na += 1; names.append(a)
            elif k in ("find", "has"): a = anm(); cs.append(call(k, ref("ns", a[0]), a[1], ref("attr", a[2])))
            elif k in ("new", "newhtml"): cs.append(call(k, ref("ns", r.choice(nn)), r.choice(P), ref("tag", r.choice(tg)))); na = 0; names = []
            else: cs.append(call(k, ref("ns", r.choice(nn)), r.choice(P), ref("tag", r.choice(tg))))
        # the same element, its attributes in another order and by other forms, one of them perhaps changed
        cases.append(line(r.randrange(3), cs))
    for _ in range(500 if q else 10000):
        A = list({(r.choice(["", "", r.choice(nss)]), r.choice(P), x) for x in r.sample(attrs, 3) + ["x", "y"]})[:r.randint(0, 5)]; A = list({(a[0], a[1], a[2]): r.choice(V) for a in A}.items())
        ns, t = r.choice(nss + ["", "urn:x"]), r.choice(tags + ["x"] * 20)
        def mk(B): return [call("new", ref("ns", ns), r.choice(P), ref("tag", t))] + [call("push", ref("ns", a[0]), a[1], ref("attr", a[2]), v) for a, v in B]
        B = A[:]; r.shuffle(B); m = r.randrange(7)
        if B and m == 0: B[-1] = (B[-1][0], B[-1][1] + "z")
        if B and m == 1: B.pop()
        if B and m == 2: B[0] = ((B[0][0][0], B[0][0][1], B[0][0][2] + "q"), B[0][1])
        if B and m == 3: B[0] = ((B[0][0][0], B[0][0][1] + "q", B[0][0][2]), B[0][1])
        cases.append(line(r.randrange(3), mk(A) + [call("save")] + mk(B) + [call("eq")] + ([call("setname", n=ref("tag", r.choice(tags))), call("eq")] if m == 4 else []) + ([call("setns", ref("ns", r.choice(nss))), call("eq")] if m == 5 else [])))
    for w in range(3):
        for k in (1, 3, 7, 8, 9, 10, 11):
            for how in (0, 1):
                for dt in (1, 2):
                    for dm in (1, 2, 3):
                        a, b, c = (r.choice(V + ["abc", "x\0y"]) for _ in range(3))
                        cases.append({"line": "2 %d %d %d %d %d %s %s %s" % (w, k, how, dt, dm, ints(a), ints(b), ints(c)), "kind": k, "a": a, "b": b, "c": c})
    ctx.extra["rule"] = "what the getters show and every form of each question answers equals the operators of Names.tla on the history of calls"
    check_model(ctx, "NamesMC", "NamesMC.cfg" if q else "NamesMCdeep.cfg")
    conformance(ctx, exe, "NamesTrace", cases, corrupt=corrupt, ncanary=40)
