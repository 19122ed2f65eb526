"""Shared machinery of the checks: building harnesses from /repo's working tree, running them,
running TLC on recorded traces and on the exhaustive models, evidence, verdicts."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
NCPU = os.cpu_count() or 8
CXX = ["g++", "-std=c++20", "-include", "cstdint", "-O1", "-g0", "-w", "-fno-strict-aliasing", "-I" + os.path.join(REPO, "include"),
       "-I" + os.path.join(VERIF, "harness")]
LIBSRC = {
    "atom_tbl": "lib/whatwg/html/parsing/atom_tbl.cpp",
    "url": "lib/whatwg/url/url.cpp",
    "host": "lib/whatwg/url/host.cpp",
    "idx_ptr": "lib/whatwg/encoding/indexes_pointer.cpp",
    "idx_cp": "lib/whatwg/encoding/indexes_code_point.cpp",
    "encoding": "lib/whatwg/encoding/encoding.cpp",
    "css_token": "lib/wwwc/css_syntax/token.cpp",
    "grammar": "lib/wwwc/selectors/grammar.cpp",
}
LDLIBS = ["-licuuc", "-licudata", "-lssl", "-lcrypto", "-lpthread"]

class CheckError(Exception):
    """The check itself could not be carried out (never a verdict on the code)."""

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0          # distinct states found by TLC
        self.transitions = 0     # states generated by TLC
        self.cases = 0
        self.accepted = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.notes = []
        self.known_hits = []
        self.violations = []
        self.extra = {}
    @property
    def quick(self): return self.tier == "quick"
    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

# ------------------------------------------------------------------------------------------------ building
def _compile(src, defs=()):
    """Object file for src, cached by the hash of its preprocessed text (so it always reflects the tree)."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    pp = subprocess.run(CXX + list(defs) + ["-E", "-P", src], capture_output=True)
    if pp.returncode: raise CheckError(f"preprocessing {src} failed:\n" + pp.stderr.decode()[-3000:])
    h = hashlib.sha256(" ".join(CXX + list(defs)).encode() + pp.stdout).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", h + ".o")
    if not os.path.exists(obj):
        tmp = obj + f".{os.getpid()}.{random.random()}.tmp"
        r = subprocess.run(CXX + list(defs) + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode: raise CheckError(f"compiling {src} failed:\n" + r.stderr.decode()[-3000:])
        os.replace(tmp, obj)
    return obj

def build(harness, libs=(), defs=()):
    """Compile /verif/harness/<harness>.cpp (list allowed) with the named library sources of /repo and link."""
    names = [harness] if isinstance(harness, str) else list(harness)
    srcs = [os.path.join(VERIF, "harness", n + ".cpp") for n in names] + [os.path.join(REPO, LIBSRC[l]) for l in libs]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: _compile(s, defs), srcs))
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", names[0] + "-" + h)
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}.{random.random()}.tmp"
        r = subprocess.run(["g++"] + objs + LDLIBS + ["-o", tmp], capture_output=True)
        if r.returncode: raise CheckError("link failed:\n" + r.stderr.decode()[-3000:])
        os.replace(tmp, exe)
    return exe

# ------------------------------------------------------------------------------------------------ running the code
def ints(seq):
    """wire form of a string / list of ints: its length and its elements"""
    s = [ord(c) for c in seq] if isinstance(seq, str) else list(seq)
    return " ".join([str(len(s))] + [str(x) for x in s])

def _run_batch(exe, batch, args):
    """batch: [(id, line)] -> {id: [event dicts]}; a crash or timeout of the code becomes an event {"op":"crash"}"""
    out = {}
    i = 0
    restarts = 0
    t0 = time.time()
    while i < len(batch):
        inp = "".join(f"{cid} {line}\n" for cid, line in batch[i:]).encode()
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            so, _ = p.communicate(inp, timeout=1500)
        except subprocess.TimeoutExpired:
            p.kill(); so, _ = p.communicate()
        done = 0
        cur = []
        for ln in so.split(b"\n"):
            if ln.startswith(b"E "):
                try: cur.append(json.loads(ln[2:]))
                except ValueError: cur.append(None)
            elif ln.startswith(b"D "):
                if None in cur: raise CheckError("harness wrote an unreadable event: " + repr(ln[:200]))
                out[batch[i + done][0]] = cur
                if int(ln[2:]) != batch[i + done][0]: raise CheckError("harness answered cases out of order")
                done += 1; cur = []
        i += done
        if i < len(batch):
            cur = [e for e in cur if e is not None]
            out[batch[i][0]] = cur + [{"op": "crash", "sig": abs(p.returncode or 0)}]
            i += 1
            restarts += 1
            if restarts > 200 or time.time() - t0 > 60:       # hopelessly broken: do not spend the budget on restarting
                for cid, _ in batch[i:]: out[cid] = [{"op": "skipped"}]
                break
    return out

def run_cases(exe, cases, args=(), jobs=None):
    """cases: list of wire lines; returns list of event lists"""
    jobs = jobs or NCPU
    idx = list(enumerate(cases))
    chunks = [idx[k::jobs] for k in range(jobs) if idx[k::jobs]]
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(lambda c: _run_batch(exe, c, args), chunks): res.update(o)
    return [res[i] for i in range(len(cases))]

# ------------------------------------------------------------------------------------------------ TLC
RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

def tlc(ctx, module, cfg, env=None, workers=1, heap="3g", timeout=840, tag="", extra=()):
    d = tempfile.mkdtemp(prefix=f"tlc-{module}-{tag}", dir=ctx.work)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-XX:TieredStopAtLevel=4",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d,
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-cleanup", *extra, "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e["SPECDATA"] = os.path.join(SPEC, "data"); e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}")
    out = r.stdout.decode(errors="replace")
    m = RE_STATES.findall(out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out, gen, dist

def check_model(ctx, module, cfg=None, workers=NCPU, heap="6g", expect=None, timeout=840):
    """Exhaustive check of a specification: must pass, otherwise the model itself is broken (an error, not a verdict)."""
    cfg = cfg or module + ".cfg"
    t = time.time()
    rc, out, gen, dist = tlc(ctx, module, cfg, workers=workers, heap=heap, tag="mc", timeout=timeout)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise CheckError(f"model {module}/{cfg} does not check:\n" + out[-4000:])
    ctx.states += dist; ctx.transitions += gen
    ctx.models.append({"model": module, "config": cfg, "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})
    ctx.log(f"model {cfg}: {dist} distinct states, {gen} transitions")

def check_models(ctx, jobs, par=4):
    """several models at a time; jobs: list of (module, cfg)"""
    with cf.ThreadPoolExecutor(par) as ex:
        for f in [ex.submit(check_model, ctx, m, c, max(1, NCPU // par), "4g") for m, c in jobs]: f.result()

def validate(ctx, module, cases, cfg=None, shards=None, env=None, heap="3g", count=True, timeout=840):
    """cases: list of (id, [events]).  Every event gets c=<id>; each case is preceded by a reset event.
    Returns {id: reject text} for the cases TLC rejects."""
    cfg = cfg or module + ".cfg"
    shards = shards or NCPU
    weights = [(sum(len(json.dumps(e)) for e in ev) + 50, cid, ev) for cid, ev in cases]
    weights.sort(key=lambda w: -w[0])
    bins = [[0, []] for _ in range(max(1, min(shards, len(cases))))]
    for w, cid, ev in weights:
        b = min(bins, key=lambda b: b[0]); b[0] += w; b[1].append((cid, ev))
    jobs = []
    for k, (_, items) in enumerate(bins):
        path = os.path.join(ctx.work, f"trace-{module}-{k}-{random.getrandbits(40)}.ndjson")
        n = 0
        with open(path, "w") as f:
            for cid, ev in items:
                f.write(json.dumps({"op": "reset", "c": cid}) + "\n"); n += 1
                for e in ev:
                    e = dict(e); e["c"] = cid
                    f.write(json.dumps(e) + "\n"); n += 1
        jobs.append((path, n, k))
    def one(job):
        path, n, k = job
        ee = {"TRACE": path}; ee.update(env or {})
        rc, out, gen, dist = tlc(ctx, module, cfg, env=ee, tag=str(k), heap=heap, timeout=timeout)
        if rc != 0 or "Model checking completed. No error has been found." not in out or dist != n + 1:
            raise CheckError(f"trace validation of {module} could not be carried out (rc={rc}, states {dist}, lines {n}, file {path}):\n" + out[-4000:])
        os.unlink(path)
        rej = {}
        for m in re.finditer(r'^"REJECT (-?\d+) (.*)"$', out, re.M):
            rej.setdefault(int(m.group(1)), m.group(2))
        return rej, gen, dist
    rejected = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rej, gen, dist in ex.map(one, jobs):
            rejected.update(rej)
            if count: ctx.states += dist; ctx.transitions += gen
    return rejected

# ------------------------------------------------------------------------------------------------ verdict
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(path): return []
    out = []
    for ln in open(path):
        ln = ln.strip()
        if ln.startswith("{"):
            k = json.loads(ln)
            if k.get("property") == prop and k.get("status") == "known": out.append(k)
    return out

def conformance(ctx, exe, module, cases, render=None, args=(), corrupt=None, cfg=None, describe=None, env=None, nontrivial=None, label=None, ncanary=12):
    """cases: list of dicts with key 'line' (wire form) and anything else the caller wants to keep.
    Runs them on the real code, validates the recorded traces against `module`, confirms rejections."""
    lab = label or module
    t = time.time()
    evs = run_cases(exe, [c["line"] for c in cases], args)
    ctx.log(f"{lab}: executed {len(cases)} cases on the code in {time.time()-t:.1f}s")
    skipped = sum(1 for e in evs if e and e[-1].get("op") == "skipped")
    t = time.time()
    todo = [(i, (render(cases[i], evs[i]) if render else evs[i])) for i in range(len(cases)) if not (evs[i] and evs[i][-1].get("op") == "skipped")]
    canaries = {}; source = {}
    if corrupt:
        r = random.Random(f"canary-{ctx.seed}-{lab}")
        order = list(range(len(todo))); r.shuffle(order)
        for i in order:
            if len(canaries) >= ncanary: break
            ev = json.loads(json.dumps(todo[i][1]))
            if any(e.get("op") == "crash" for e in ev): continue
            if corrupt(ev, r): source[-1 - len(canaries)] = todo[i][0]; canaries[-1 - len(canaries)] = ev
        if not canaries and not any(e.get("op") == "crash" for _, ev in todo for e in ev): raise CheckError(f"{lab}: no trace could be corrupted for the self-test")
    rej = validate(ctx, module, todo + [(k, v) for k, v in canaries.items()], cfg=cfg, env=env)
    for k in canaries:                      # (the corruption of a trace that is wrong already may happen to mend it)
        if k not in rej and source[k] not in rej: raise CheckError(f"{lab}: self-test failed, a corrupted trace was accepted: " + json.dumps(canaries[k])[:1500])
    nrej = [i for i in rej if i >= 0]
    ctx.extra["corrupted_traces_rejected"] = ctx.extra.get("corrupted_traces_rejected", 0) + len(canaries)
    ctx.log(f"{lab}: TLC validated {len(todo)} traces in {time.time()-t:.1f}s, {len(nrej)} rejected, {len(canaries)} corrupted traces rejected as they must be")
    ctx.cases += len(todo); ctx.accepted += len(todo) - len(nrej)
    ctx.events += sum(len(e) for e in evs)
    for i in (0, len(cases) // 2, len(cases) - 1):
        if cases and len(ctx.samples) < 12:
            ctx.samples.append({"trace": lab, "case": {k: v for k, v in cases[i].items() if k != "line"} or cases[i]["line"][:300],
                                "events": json.loads(json.dumps(evs[i])[:100000])[:3] if len(json.dumps(evs[i])) < 3000 else json.dumps(evs[i])[:600]})
    # confirm rejections by repeating both the execution and the validation, alone
    confirmed = []
    if nrej:
        nrej.sort(key=lambda i: len(cases[i]["line"]))
        pick = nrej[:40]
        evs2 = run_cases(exe, [cases[i]["line"] for i in pick], args)
        todo2 = [(i, (render(cases[i], evs2[k]) if render else evs2[k])) for k, i in enumerate(pick)]
        rej2 = validate(ctx, module, todo2, cfg=cfg, env=env, count=False)
        for k, i in enumerate(pick):
            if i in rej2: confirmed.append((cases[i], evs2[k], rej2[i]))
        if not confirmed: raise CheckError(f"{lab}: rejections did not repeat")
    for case, ev, text in confirmed:
        ctx.violations.append({"module": module, "case": case, "events": ev, "spec_says": text, "harness": os.path.basename(exe), "args": list(args)})
    return evs, rej

def check_known(ctx, exe, module, render=None, args=(), cfg=None, env=None, group=None):
    """Witness inputs of the listed findings: the strict specification rejects each of them as long as the defect is there."""
    ks = [k for k in known_findings(ctx.prop) if k.get("group", group) == group and k.get("line") is not None]
    if not ks: return
    evs = run_cases(exe, [k["line"] for k in ks], args)
    rej = validate(ctx, module, [(i, (render(ks[i], evs[i]) if render else evs[i])) for i in range(len(ks))], cfg=cfg, env=env)
    for i, k in enumerate(ks):
        if i in rej: ctx.known_hits.append(k["what"])
        else: ctx.log("note: listed finding no longer reproduces:", k["what"])

def finish(ctx, level="model_checking", assumptions=()):
    ev_path = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.accepted,
           "evaluations": ctx.cases, "events_recorded": ctx.events, "models": ctx.models, "samples": ctx.samples[:12]}
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    with open(ev_path, "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in ctx.known_hits: print(f"KNOWN-FINDING: property={ctx.prop} {k}")
    shutil.rmtree(ctx.work, ignore_errors=True)
    if ctx.violations:
        rd = os.path.join(VERIF, "replay"); os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(ctx.violations[:5]):
            path = os.path.join(rd, f"{ctx.prop}-{n}.json")
            with open(path, "w") as f: json.dump(v, f, indent=1)
            print(json.dumps({k: v[k] for k in ("case", "events", "spec_says")})[:1200])
            print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    print(f"OK property={ctx.prop} states={ctx.states} traces={ctx.accepted} wall={ev['wall_s']}s")
    return 0
