"""C21: programs converted and converted again, the passes replayed on Twice.tla (TwiceTrace.tla)."""
import ast, hashlib, json, os, random, shutil, sys, tempfile
import engine, conv, ctx
import drv_convert as D, drv_bind, drv_block, drv_grammar, drv_helper

HEADS = D.HEADS


ONE = ("os", "einops")


class OneSpelling(ast.NodeTransformer):
    """os and einops get one spelling of their imports"""
    def __init__(self, tree):
        self.m = {}
        for s in ast.walk(tree):
            if isinstance(s, ast.ImportFrom) and not s.level and (s.module or "").split(".")[0] in ONE:
                for a in s.names:
                    self.m[a.asname or a.name] = s.module + "." + a.name

    def visit_ImportFrom(self, n):
        return None if not n.level and (n.module or "").split(".")[0] in ONE else n

    def visit_Import(self, n):
        n.names = [a for a in n.names if a.name.split(".")[0] not in ONE]
        return n if n.names else None

    def visit_Name(self, n):
        return ast.parse(self.m[n.id]).body[0].value if n.id in self.m and isinstance(n.ctx, ast.Load) else n


def fingerprint(text):
    """the program, wherever its imports stand"""
    t = ast.parse(conv.unmark(text))
    conv.squeeze_docstrings(t)
    t = OneSpelling(t).visit(t)
    imp, body = [], []
    for s in t.body:
        if isinstance(s, ast.Import) or isinstance(s, ast.ImportFrom) and s.module != "__future__":
            imp += [ast.dump(type(s)(**{**{f: getattr(s, f) for f in s._fields}, "names": [a]})) for a in s.names]
        else:
            body.append(s)
    t.body = body
    return hashlib.sha1((drv_grammar.canon_dump(t) + "".join(sorted(set(imp)))).encode("utf-8", "surrogatepass")).hexdigest()


def again(code, modes, no_format, site=None):
    """convert the output again and again; -> list of passes"""
    out = []
    for k, m in enumerate(modes):
        r = conv.convert_text(code, mode=m, no_format=no_format)
        p = {"mode": m, "exc": r["exc"], "ret": r["ret"] or [-1, -1], "marks": 0, "same": True, "fp": ""}
        out.append(p)
        if r["out"] is None or r["exc"]:
            p["exc"] = p["exc"] or "NoOutput"
            break
        try:
            p["marks"] = len(conv.marked_lines(r["out"]))
            code = conv.unmark(r["out"])
            p["fp"] = fingerprint(code)
            if site:
                p["same"] = site(k, code)
        except (SyntaxError, ValueError):
            p["exc"] = "InvalidPython"
            break
    return out


# ------------------------------------------------------------ programs of the model
def build(sites, texts):
    return D.build({"sites": [dict(s, src=t) for s, t in zip(sites, texts)]})


def observe(a):
    case, head, nf = a
    ss = case["sites"]
    code = HEADS[head] + build(ss, [s["src"] for s in ss])
    want = [D.segments(ast.parse(build(ss, t))) for t in case["texts"]]

    def site(k, text):
        got = D.segments(ast.parse(text))
        return all(n in got and D.norm(got[n]) == D.norm(want[k][n]) for n in range(1, len(ss) + 1))

    return {"kind": "uses", "sites": [{k: s[k] for k in ("ctx", "chain", "plain")} for s in ss], "passes": again(code, case["modes"], nf, site)}


# ------------------------------------------------------------ any program
def opaque(a):
    code, modes, nf = a
    return {"kind": "opaque", "sites": [], "passes": again(code, modes, nf)}


def tree(a):
    """a project: its output directory converted again"""
    files, modes, nf = a
    C = sys.modules["paconvert.converter"]
    d = tempfile.mkdtemp(prefix="t", dir=engine.WORKDIR)
    out = []
    try:
        for n, t in files.items():
            os.makedirs(os.path.dirname(d + "/p0/" + n), exist_ok=True)
            with open(d + "/p0/" + n, "w") as f:
                f.write(t)
        for k, m in enumerate(modes):
            src, dst = "%s/p%d" % (d, k), "%s/p%d" % (d, k + 1)
            r = conv._run(C, d, src, dst, m, nf, {})
            p = {"mode": m, "exc": r["exc"], "ret": r["ret"] or [-1, -1], "marks": 0, "same": True, "fp": ""}
            out.append(p)
            if r["exc"]:
                break
            h = []
            for top, _, fs in sorted(os.walk(dst)):
                for n in sorted(fs):
                    with open(os.path.join(top, n), encoding="utf-8") as f:
                        text = f.read()
                    p["marks"] += len(conv.marked_lines(text))
                    h.append(os.path.relpath(os.path.join(top, n), dst) + fingerprint(text))
            p["fp"] = hashlib.sha1("".join(h).encode()).hexdigest()
            if p["marks"]:
                break
    except (SyntaxError, ValueError):
        out[-1]["exc"] = "InvalidPython"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"kind": "opaque", "sites": [], "passes": out}


def run_job(a):
    return a[0](a[1])


# ------------------------------------------------------------ cases
def ask(**kw):
    d = {"ctxs": sorted(ctx.CTX), "kinds": [], "plains": [], "sites": 4, "depth": 3, "passes": 3}
    d.update(kw)
    return engine.askfile(d)


def gen(**kw):
    r = engine.tlc("GenTwice", env=ask(**kw), workers=2, heap="3g")
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def pack(singles, per, rnd):
    by = {}
    for c in singles:
        by.setdefault(tuple(c["modes"]), []).append(c)
    out = []
    for m, l in sorted(by.items()):
        rnd.shuffle(l)
        for i in range(0, len(l), per):
            g = l[i:i + per]
            out.append({"modes": list(m), "sites": [c["sites"][0] for c in g]})
    return out


MODES = [["default", "default"], ["default", "min"]]


def calls(tier):
    """every converted call of the contract, many to a program"""
    T, G = drv_bind.table(), drv_bind.gold()
    res = drv_bind.generate(sorted(T), False)
    out = []
    for api in sorted(res):
        l = [c for c in res[api] if drv_bind.want_counts(c, G.get(c["src"]) if c["status"] == "own" else None) == [1, 0]
             and not (c["status"] == "own" and G[c["src"]]["m"])]
        if tier == "quick":
            l = l[::max(1, len(l) // 6)]
        for i in range(0, len(l), 40):
            out.append(drv_bind.program(api, [c["src"] for c in l[i:i + 40]]))
    return out


def cases(tier):
    q = tier == "quick"
    rnd = random.Random(engine.SEED)
    num = 250 if q else 6000
    simt = lambda k, **kw: lambda: engine.simulate("GenTwice", num, env=ask(**kw), depth=120, seed=engine.SEED * 100 + k, heap="3g")
    helper = lambda k, **kw: lambda: engine.simulate("GenHelper", num // 2, env=drv_helper.ask(heads=drv_helper.HEADKINDS, places=sorted(drv_helper.PLACES), **kw), depth=80, seed=engine.SEED * 100 + k, heap="3g")
    block = lambda k: lambda: engine.simulate("GenBlock", num, env=drv_block.ask(tokens=13, depth=4), depth=140, seed=engine.SEED * 100 + k, heap="3g")
    g = engine.par(
        lambda: gen(sites=1, depth=1, plains=["v"], passes=2 if q else 3, ctxs=["assign", "if", "longcall", "fstr"] if q else sorted(ctx.CTX)),
        lambda: gen(sites=1, depth=2, plains=["v", "np.zeros(v)"], passes=2, ctxs=["assign"]),
        simt(1, sites=3, depth=4), simt(2, sites=4, depth=3, passes=4))
    h = engine.par(helper(3, dirs=[False], uses=3), helper(4, dirs=[True], files=4, uses=2), block(5),
                   lambda: drv_grammar.sim(6, num, spine=False, depth=3), lambda: drv_grammar.sim(7, num, spine=True, depth=6))
    return g, h, calls(tier)


def check(pid, tier, rep):
    q = tier == "quick"
    mc = engine.tlc_start("MCTwice", workers=2, heap="3g")
    (g1, g2, s1, s2), (h1, h2, bl, gr1, gr2), cl = cases(tier)
    corpus = engine.load_corpus()
    rep.cov.update(uses_x_places=len(g1), nested_uses=len(g2), random_programs=len(s1) + len(s2), helper_programs=len(h1), helper_projects=len(h2),
                   block_programs=len(bl), grammar_programs=len(gr1) + len(gr2), programs_of_contract_calls=len(cl), corpus=len(corpus))
    jobs = []
    for n, c in enumerate(g1 + g2 + s1 + s2):
        jobs.append((observe, (c, n % len(HEADS), not (n % 9 == 5))))
    for n, c in enumerate(h1):
        jobs.append((opaque, (drv_helper.render(c["runs"][0]["files"][0]), MODES[n % 2], n % 9 != 5)))
    for n, c in enumerate(h2):
        fs = c["runs"][0]["files"][:len(drv_helper.PATHS)]
        jobs.append((tree, ({p: drv_helper.render(f) for p, f in zip(drv_helper.PATHS, fs)}, MODES[n % 2], n % 9 != 5)))
    for n, c in enumerate(bl):
        jobs.append((opaque, (drv_block.render(c, n % 6), MODES[n % 2], n % 9 != 5)))
    for n, c in enumerate(gr1 + gr2):
        jobs.append((opaque, (drv_grammar.HEADS["torch"][0] + drv_grammar.layout(c["src"]), MODES[n % 2], n % 9 != 5)))
    for n, t in enumerate(cl):
        jobs.append((opaque, (t, MODES[n % 2], True)))
    for n, (name, t) in enumerate(corpus):
        if not q or n % 3 == engine.SEED % 3:
            jobs.append((opaque, (t, MODES[(n // 3) % 2], n % 27 >= 3)))
    recs = engine.pmap(run_job, jobs)
    for k, r in enumerate(recs):
        if "passes" not in r:
            recs[k] = {"kind": "opaque", "sites": [], "passes": [{"mode": "default", "exc": "", "ret": [0, 0], "marks": 0, "same": True, "fp": ""},
                                                                 {"mode": "default", "exc": r.get("exc") or "TIMEOUT", "ret": [0, 0], "marks": 0, "same": True, "fp": ""}]}
        recs[k]["job"] = k
    rep.traces += len(recs)
    rep.cov["passes"] = sum(len(r["passes"]) for r in recs)
    rep.cov["in_scope"] = sum(1 for r in recs if r["kind"] == "uses" or (not r["passes"][0]["exc"] and r["passes"][0]["ret"][1] == 0 and not r["passes"][0]["marks"]))
    engine.tlc_finish(mc)
    parts = [recs[a::3] for a in range(3)]
    bads = engine.par(*[lambda c=c: engine.judge("TwiceTrace", c, workers=1, heap="4g") for c in parts if c])
    for rec, clause, detail in [b for l in bads for b in l]:
        fn, a = jobs[rec["job"]]
        text = source(fn, a)
        rep.violation(clause + ":" + hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:12],
                      {"program": text, "expected": detail, "passes": rec["passes"], "no_format": a[2], "sites": rec["sites"]})
    for fn, a in jobs[::max(1, len(jobs) // 6)]:
        rep.sample(source(fn, a)[:300])


def source(fn, a):
    if fn is observe:
        return HEADS[a[1]] + build(a[0]["sites"], [s["src"] for s in a[0]["sites"]])
    return a[0] if fn is opaque else json.dumps(a[0], sort_keys=True)
