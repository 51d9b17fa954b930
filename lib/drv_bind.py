"""C13 (arguments), C22 (names): every call form of every API of the contract,
generated from GenBind.tla, converted, and replayed on the model (BindTrace.tla)."""
import ast, gzip, hashlib, json, os, random, re
import engine, conv
from drv_convert import strip_ann, sentinel

CONTRACT = os.path.join(engine.DATA, "contract.json")
GOLD = os.path.join(engine.DATA, "own.json.gz")


class Sort(ast.NodeTransformer):
    """keywords of a call in alphabetical order (unpackings last, in order)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        n.keywords.sort(key=lambda k: (k.arg is None, k.arg or ""))
        return n


IDENT = re.compile(r"\b[A-Za-z_]\w*\b")


def norm_code(stmts, src):
    """canonical text of statements; temporaries (names the source does not have) numbered by appearance"""
    tree = ast.Module(body=[ast.parse(ast.unparse(s)).body[0] for s in stmts], type_ignores=[])
    text = ast.unparse(Sort().visit(strip_ann(tree)))
    have, seen = set(IDENT.findall(src)), {}
    own = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - have

    def f(m):
        return seen.setdefault(m.group(0), "T#%d" % len(seen)) if m.group(0) in own else m.group(0)

    return IDENT.sub(f, text)


def norm_text(text, src):
    return norm_code(ast.parse(text).body, src)


def head(api):
    pk = [p for p in ("torchvision", "torchaudio", "transformers", "fairscale", "flash_attn", "timm", "mmcv", "setuptools", "os", "einops") if api.split(".")[0] == p]
    return "import torch\n" + "".join("import %s\n" % p for p in pk)


def program(api, srcs):
    out = [head(api)]
    for n, s in enumerate(srcs, 1):
        out.append("site_%d()\n%s\n" % (n, s))
    out.append("site_%d()\n" % (len(srcs) + 1))
    return "".join(out)


def observe(a):
    """-> exc, ret, sites: [text, marked] per source statement"""
    api, srcs, kw = a
    r = conv.convert_text(program(api, srcs), **kw)
    res = {"exc": r["exc"], "ret": r["ret"] or [-1, -1], "sites": [["", False]] * len(srcs)}
    if r["out"] is None:
        res["exc"] = res["exc"] or "NoOutput"
        return res
    try:
        tree = ast.parse(conv.unmark(r["out"]))
    except (SyntaxError, ValueError):
        res["exc"] = res["exc"] or "InvalidPython"
        return res
    marked = conv.marked_lines(r["out"])
    seg, line, cur = {}, {}, None
    for st in tree.body:
        k = sentinel(st)
        if k is not None:
            cur = k
            seg[cur] = []
            line[cur] = st.lineno
        elif cur is not None:
            seg[cur].append(st)
    sites = []
    for n, s in enumerate(srcs, 1):
        if n not in seg or n + 1 not in line:
            res["exc"] = res["exc"] or "LostStatement"
            return res
        m = any(line[n] <= i < line[n + 1] - 1 for i in marked)
        sites.append([norm_code(seg[n], s), m])
    res["sites"] = sites
    return res


def table():
    with open(CONTRACT) as f:
        return json.load(f)


def gold():
    with gzip.open(GOLD, "rt") as f:
        return json.load(f)


def generate(apis, deep, parts=4):
    def one(l):
        def go():
            e = engine.askfile({"apis": l, "deep": deep})
            e["CONTRACT"] = CONTRACT
            return engine.tlc("GenBind", env=e, workers=1, heap="3g")
        return go
    apis = sorted(apis)
    rs = engine.par(*[one(apis[k::parts]) for k in range(parts) if apis[k::parts]])
    res = {}
    for r in rs:
        for c in r.json("CASE"):
            res.setdefault(c["api"], []).append(c)
    for a in res:
        res[a].sort(key=lambda c: (c["src"]))
    return res


def want_counts(c, g):
    if c["status"] == "own":
        return g["n"]
    return {"converted": [1, 0], "passed": [1, 0], "unsupported": [0, 1], "alien": [0, 0]}[c["status"]]


def run_cases(res, rep, G, tag="", per=40, **kw):
    """convert every case, judge; -> list of (case, clause, record)"""
    jobs, cs = [], []
    for api in sorted(res):
        l = res[api]
        for i in range(0, len(l), per):
            jobs.append((api, [c["src"] for c in l[i:i + per]], kw))
            cs.append(l[i:i + per])
    obs = engine.pmap(observe, jobs)
    recs, gone = [], {}
    for (api, srcs, _), part, o in zip(jobs, cs, obs):
        if "sites" not in o:
            o = {"exc": o.get("exc") or "TIMEOUT", "ret": [-1, -1], "sites": [["", False]] * len(srcs)}
        s = f = 0
        for c, (text, marked) in zip(part, o["sites"]):
            g = None
            if c["status"] == "own":
                g = G[c["src"]]
            w = want_counts(c, g)
            s, f = s + w[0], f + w[1]
            rec = {"kind": "call", "api": api, "call": c["call"], "ctx": c["ctx"], "status": c["status"], "exc": o["exc"], "text": text, "marked": marked, "same": False,
                   "own": {"text": "", "marked": False}, "src": c["src"]}
            if g is not None:
                rec["own"] = {"text": g["t"], "marked": g["m"]}
                if not o["exc"] and not marked and g["n"][0] and text != norm_text(c["src"], c["src"]):
                    for x in c["call"]:
                        if x["v"].startswith("v_") and len(x["v"]) > 3 and x["v"] != "v_extra" and not re.search(r"\b%s\b" % x["v"], text):
                            gone.setdefault((api, x["v"][2:]), c["src"])
            elif not o["exc"]:
                rec["same"] = text == norm_text(c["exp"], c["src"])
                rec["exp"] = c["exp"]
            recs.append(rec)
        recs.append({"kind": "sum", "api": api, "call": [], "ctx": "assign", "status": "own", "exc": o["exc"], "got": o["ret"], "want": [s, f], "src": "\n".join(srcs)})
    for (api, p), src in sorted(gone.items()):
        recs.append({"kind": "gone", "api": api, "call": [], "ctx": "assign", "status": "own", "exc": "", "param": p, "src": src})
    return recs


def judge(recs, parts=4):
    env = {"CONTRACT": CONTRACT}
    n = max(1, (len(recs) + parts - 1) // parts)
    out = engine.par(*[(lambda part: lambda: engine.judge("BindTrace", part, env=env, heap="3g"))(recs[i:i + n]) for i in range(0, len(recs), n)])
    return [b for l in out for b in l]


def freeze():
    """write data/own.json.gz from the tree at hand (by hand only)"""
    T = table()
    res = generate([a for a in T if T[a]["style"] == "own"], True)
    jobs, keys = [], []
    for api in res:
        for c in res[api]:
            jobs.append((api, [c["src"]], {}))
            keys.append(c["src"])
    obs = engine.pmap(observe, jobs)
    g = {}
    for k, o in zip(keys, obs):
        assert not o["exc"], (k, o)
        g[k] = {"t": o["sites"][0][0], "m": o["sites"][0][1], "n": o["ret"]}
    with open(GOLD, "wb") as raw:
        with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as f:
            f.write(json.dumps(g, sort_keys=True, separators=(",", ":")).encode())
    return len(g)


def check(pid, tier, rep):
    if pid == "C22":
        import drv_names
        return drv_names.check(pid, tier, rep)
    T, G = table(), gold()
    mc = engine.tlc_start("MCBind", workers=2, heap="3g")
    quick = tier == "quick"
    deep = [a for n, a in enumerate(sorted(T)) if not quick or T[a]["style"] in ("generic", "own") or (n + engine.SEED) % 12 == 0]
    res, res2 = engine.par(lambda: generate(deep, True, 3), lambda: generate([a for a in T if a not in set(deep)], False, 2) if quick else {})
    res.update(res2)
    rep.cov["apis"] = len(res)
    rep.cov["calls"] = sum(map(len, res.values()))
    recs = run_cases(res, rep, G)
    rep.traces += len(recs)
    for rec, clause, detail in judge(recs):
        key = "C13.%s:%s" % (clause, hashlib.sha1(rec["src"].encode()).hexdigest()[:12])
        if rec["kind"] == "gone":
            key = "C13.vanishes:%s.%s" % (rec["api"], rec["param"])
        rep.violation(key, {"source": rec["src"], "written": rec.get("text", rec.get("got")), "marked": rec.get("marked"), "expected": rec.get("exp") or rec.get("own") or rec.get("want"), "model": detail, "error": rec["exc"]})
    for a in sorted(res)[:4]:
        rep.sample(res[a][0])
    engine.tlc_finish(mc)
