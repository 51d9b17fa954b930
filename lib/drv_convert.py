"""C07, C08, C09, C15, C18: programs generated from Convert.tla, converted, observed,
and replayed on the model (ConvertTrace.tla)."""
import ast, copy, hashlib, json, os, random, re
import engine, conv, ctx

PKGS = {"torch", "torchvision", "transformers", "timm"}
BARE = "from torch import abs as absq, float32 as f32q, foo_bar as fooq\nfrom torch import (\n    foo_attr as afooq,\n)\nfrom torch.nn.functional import relu as reluq, avg_pool1d as avgpq\n"
HEADS = [
    "import torch\nimport torchvision\nimport timm\nimport transformers\nimport os\nimport einops\nimport numpy as np\n" + BARE,
    "import torch, torchvision, os\nimport numpy as np, transformers, timm.models.layers\nimport einops.layers.torch\n" + BARE,
    "'''doc torch.abs(x)\ntorch.foo_bar(1)\n'''\nfrom __future__ import annotations\nimport numpy as np\nimport torch.nn\nimport torchvision.zed, os, einops, timm\nimport transformers\n" + BARE,
    "import paddle\nimport torch\nimport torchvision\nimport timm\nimport transformers\nimport os\nimport einops\nimport numpy as np\n" + BARE,
]
ANN = "Not Support auto convert"


# ------------------------------------------------------------ building programs
def site_text(n, s, key):
    e = re.sub(r"\bv\b", "v%d" % n, s[key])
    return ctx.prog(s["ctx"], e)


def build(case, key="src"):
    out = []
    for n, s in enumerate(case["sites"], 1):
        out.append("site_%d()\n" % n)
        out.append(site_text(n, s, key))
    out.append("site_%d()\n" % (len(case["sites"]) + 1))
    return "".join(out)


# ------------------------------------------------------------ reading outputs
def blocks(st):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(st, f, None)
        if isinstance(b, list):
            yield f, b
    for k, h in enumerate(getattr(st, "handlers", []) or []):
        yield ("h", k), h.body


def is_ann(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str) and ANN in st.value.value


def strip_ann(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                b[:] = [x for x in b if not is_ann(x)]
    return tree


def contains(node, pred):
    return any(pred(x) for x in ast.walk(node))


def path_to(body, pred):
    """path to the innermost statement that holds a node"""
    for i, st in enumerate(body):
        if contains(st, pred):
            for f, b in blocks(st):
                p = path_to(b, pred)
                if p is not None:
                    return [i, f] + p
            return [i]
    return None


def follow(body, path):
    st = None
    while path:
        if path[0] >= len(body):
            return None
        st = body[path[0]]
        path = path[1:]
        if path:
            b = dict(blocks(st)).get(path[0]) if not isinstance(path[0], tuple) else dict(blocks(st)).get(path[0])
            if b is None:
                return None
            body, path = b, path[1:]
    return st


def first_line(st):
    d = getattr(st, "decorator_list", None)
    return min([st.lineno] + [x.lineno for x in d or []])


_paths = {}


def ctx_path(name):
    if name not in _paths:
        t = ast.parse(ctx.prog(name, "__E__"))
        _paths[name] = path_to(t.body, lambda x: isinstance(x, ast.Name) and x.id == "__E__")
    return _paths[name]


def sentinel(st):
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and re.match(r"site_\d+$", st.value.func.id):
        return int(st.value.func.id[5:])
    return None


def segments(tree):
    """top-level statements by the site they belong to"""
    seg, cur = {}, 0
    for st in tree.body:
        k = sentinel(st)
        if k is not None:
            cur = k
            seg.setdefault(cur, [])
            seg[("line", cur)] = st.lineno
        else:
            seg.setdefault(cur, []).append(st)
    return seg


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return ".".join([n.id] + parts[::-1]), n
    return None, n


def package_names(tree, pkgs=PKGS):
    """(dotted name, line of its root) for every name that starts from a package"""
    inner, res = set(), []
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            if id(n) in inner:
                continue
            x = n.value
            while isinstance(x, ast.Attribute):
                inner.add(id(x))
                x = x.value
            d, root = dotted(n)
            if d and root.id in pkgs:
                inner.add(id(root))
                res.append((d, root.lineno))
    return res


def norm(body):
    m = ast.Module(body=body, type_ignores=[])
    return ast.dump(conv.squeeze_docstrings(strip_ann(copy.deepcopy(m))))


def parse_log(log):
    """summary and listings from the log text"""
    r = {"sum": [-1, -1, -1], "rate": -1, "alls": [], "unss": []}
    m = re.search(r"There are (\d+) Pytorch APIs", log)
    if m:
        a = re.search(r"^ (\d+)  Pytorch APIs have been converted", log, re.M)
        b = re.search(r"^ (\d+)  Pytorch APIs are not supported", log, re.M)
        q = re.search(r"Convert Rate is: ([\d.]+)%", log)
    else:
        m = re.search(r"总计有 (\d+) 行", log)
        a = re.search(r"^\* (\d+) 行Pytorch 代码被成功", log, re.M)
        b = re.search(r"^\* (\d+) 行Pytorch 代码暂时不支持", log, re.M)
        q = re.search(r"转换率是 ([\d.]+)%", log)
    if m and a and b:
        r["sum"] = [int(m.group(1)), int(a.group(1)), int(b.group(1))]
    if q:
        r["rate"] = int(round(float(q.group(1)) * 100))
    cur = None
    for line in log.split("\n"):
        if line.startswith("ALL API List"):
            cur = "alls"
        elif line.startswith("Not Support API List"):
            cur = "unss"
        elif line.startswith(("UnAlign", "Convert Summary", "# 转换总结")):
            cur = None
        elif cur:
            t = line.split()
            if len(t) >= 2 and t[-1].isdigit() and "." in t[0] and len(line) > 80:
                r[cur].append([t[0], int(t[-1])])
    return r


def observe(a):
    """convert one generated program; -> observation record"""
    case, opt = a
    code = HEADS[opt["head"]] + build(case)
    kw = {}
    if opt.get("lists"):
        conv.stub_excel()
        kw = {"show_all_api": True, "show_unsupport_api": True, "log_markdown": opt.get("md", False), "want_log": True, "want_tables": True}
    r = conv.convert_text(code, mode=case["mode"], no_format=opt["no_format"], **kw)
    return observed(case, opt, code, r)


def observed(case, opt, code, r):
    ns = len(case["sites"])
    rec = {"mode": case["mode"], "sites": [{"ctx": s["ctx"], "chain": s["chain"], "plain": s["plain"]} for s in case["sites"]],
           "exc": r["exc"], "ret": r["ret"] or [-1, -1], "sum": [-1, -1, -1], "rate": -1, "alls": [], "unss": [], "tables": True,
           "obs": [{"same": False, "lines": []} for _ in range(ns)], "outside": 0, "clean": True, "imports": True, "kept": KEPT, "focus": opt["focus"]}
    if opt.get("lists") and r.get("log") is not None:
        rec.update(parse_log(r["log"]))
        t = r.get("tables", {})
        rec["tables"] = ([[x[0], x[-1]] for x in t.get("all_api_map.xlsx", [])] == rec["alls"]
                         and [[x[0], x[-1]] for x in t.get("unsupport_api_map.xlsx", [])] == rec["unss"])
    out = r["out"]
    if out is None:
        rec["exc"] = rec["exc"] or "NoOutput"
        return rec
    marked = {i + 1 for i in conv.marked_lines(out)}
    try:
        tree = ast.parse(conv.unmark(out))
    except (SyntaxError, ValueError):
        rec["exc"] = "InvalidPython"
        return rec
    seg = segments(tree)
    exp = segments(ast.parse(build(case, "exp")))
    names = package_names(tree)
    nl = out.count("\n") + 1
    used = set()
    for n in range(1, ns + 1):
        o = rec["obs"][n - 1]
        if n not in seg or ("line", n) not in seg:
            continue
        lo, hi = seg[("line", n)] + 1, seg.get(("line", n + 1), nl + 1)
        o["same"] = norm(seg[n]) == norm(exp[n])
        head = None
        body = [x for x in strip_ann(copy.deepcopy(ast.Module(body=seg[n], type_ignores=[]))).body]
        st = follow(body, ctx_path(case["sites"][n - 1]["ctx"]))
        if st is not None:
            head = first_line(st)
        for l in range(lo, hi):
            used.add(l)
            nm = sorted({d for d, k in names if k == l})
            if nm or l == head or l in marked:
                o["lines"].append({"names": nm, "head": l == head, "marked": l in marked})
    rec["outside"] = len(marked - used)
    if opt["no_format"] and "clean" in opt:
        rec["clean"] = clean_text(out)
    if case["mode"] == "min":
        want, _ = conv.split_imports(ast.parse(code))
        got, _ = conv.split_imports(tree)
        rec["imports"] = set(want) <= set(got)
    return rec


def clean_text(out):
    """without its marks the text is what printing its own program gives"""
    import astor
    t = conv.unmark(out)
    try:
        tree = ast.parse(t)  # written by astor, or by ast.unparse where astor fails
        return t.rstrip("\n") in (ast.unparse(tree).rstrip("\n"), astor.to_source(tree).rstrip("\n"))
    except Exception:
        return False


KEPT = ["torch.abs", "torch.nn.functional.relu", "torch.add", "torch.cat", "torch.sum", "torch.zeros", "torch.optim.SGD", "torch.utils.data.DataLoader",
        "torch.float32", "torch.Tensor", "torch.no_grad", "torch.arccos", "torch.pixel_shuffle", "torch.nn.modules.activation.ReLU",
        "timm.models.layers.trunc_normal_"]


# ------------------------------------------------------------ cases
def ask(**kw):
    d = {"ctxs": sorted(ctx.CTX), "kinds": [], "plains": [], "sites": 4, "depth": 3, "modes": ["default"]}
    d.update(kw)
    return engine.askfile(d)


def gen(**kw):
    r = engine.tlc("GenConvert", env=ask(**kw))
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def pack(singles, per, rnd):
    """group one-site cases into programs of several sites"""
    by = {}
    for c in singles:
        by.setdefault(c["mode"], []).append(c["sites"][0])
    out = []
    for m, l in sorted(by.items()):
        rnd.shuffle(l)
        out += [{"mode": m, "sites": l[i:i + per]} for i in range(0, len(l), per)]
    return out


def cases(pid, tier):
    """all places x all kinds of use (exhaustive), and random deeper programs"""
    rnd = random.Random(engine.SEED)
    modes = ["min"] if pid == "C18" else ["default"]
    quick = tier == "quick"
    few = ["assign"] if quick else ["assign", "return", "if", "longcall", "fstr", "decor"]
    sm = modes + (["min"] if pid in ("C08", "C09") else [])
    num = 450 if quick else 10000
    sim = lambda k: lambda: engine.simulate("GenConvert", num, env=ask(sites=4, depth=4, modes=sm), depth=120, seed=engine.SEED * 100 + k)
    # every place x every kind; every pair of kinds nested; every kind on every plain operand; random deeper programs
    single, two, pl, d, e = engine.par(
        lambda: gen(sites=1, depth=1, plains=["v"], modes=modes),
        lambda: gen(sites=1, depth=2, plains=["v"], modes=modes, ctxs=few),
        lambda: gen(sites=1, depth=1, modes=modes, ctxs=["assign", "arg"]),
        sim(1), sim(2))
    per = 3 if pid in ("C08", "C09") else 5
    res = pack(single, per, rnd) + pack(two, 8, rnd) + pack(pl, 8, rnd) + d + e
    return res, {"places_x_kinds": len(single), "nested_pairs": len(two), "kinds_x_operands": len(pl), "random_programs": len(d) + len(e)}


def check(pid, tier, rep):
    mc = engine.tlc_start("MCConvert", workers=2, heap="3g")
    cs, cov = cases(pid, tier)
    rep.cov.update(cov)
    jobs = []
    for n, c in enumerate(cs):
        # both printings for the marks, listings for the accounts
        if pid in ("C08", "C09"):
            jobs.append((c, {"focus": pid, "head": n % len(HEADS), "no_format": True, "clean": True}))
            if n % 3 == 0 or tier != "quick":
                jobs.append((c, {"focus": pid, "head": n % len(HEADS), "no_format": False}))
        elif pid == "C07":
            jobs.append((c, {"focus": pid, "head": n % len(HEADS), "no_format": True, "lists": True, "md": n % 4 == 3}))
        else:
            jobs.append((c, {"focus": pid, "head": n % len(HEADS), "no_format": n % 8 != 7}))
    if pid == "C07":
        conv.stub_excel()
    recs = engine.pmap(observe, jobs)
    for k, (r, (c, o)) in enumerate(zip(recs, jobs)):
        if "sites" not in r:
            recs[k] = observed(c, o, "", {"exc": r.get("exc") or "TIMEOUT", "ret": None, "out": None})
        recs[k]["job"] = k
    rep.traces += len(recs)
    rep.cov["programs_converted"] = len(recs)
    if pid == "C07":
        project(cs, tier, rep)
    for rec, clause, detail in engine.judge("ConvertTrace", recs, workers=1):
        c, o = jobs[rec["job"]]
        code = HEADS[o["head"]] + build(c)
        key = clause + ":" + hashlib.sha1(code.encode()).hexdigest()[:12]
        rep.violation(key, {"program": code, "options": o, "expected": detail, "sites": c["sites"],
                            "observed": {k: v for k, v in rec.items() if k not in ("kept", "sites")}})
    for c in cs[:3]:
        rep.sample(build(c))
    engine.tlc_finish(mc)


def proj_obs(a):
    files = a
    import shutil, sys, tempfile
    C = sys.modules["paconvert.converter"]
    d = tempfile.mkdtemp(prefix="p", dir=engine.WORKDIR)
    try:
        for n, c in enumerate(files):
            p = d + "/in/" + ["", "a/", "b/c/"][n % 3]
            os.makedirs(p, exist_ok=True)
            with open(p + "f%d.py" % n, "w") as f:
                f.write(HEADS[n % len(HEADS)] + build(c))
        conv.stub_excel()
        r = conv._run(C, d, d + "/in", d + "/out", "default", True, {"show_all_api": True, "show_unsupport_api": True, "want_log": True, "want_tables": True})
        case = {"mode": "default", "sites": [s for c in files for s in c["sites"]]}
        r["out"] = ""
        return observed(case, {"focus": "C07", "lists": True, "no_format": True}, "", r)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def project(cs, tier, rep):
    rnd = random.Random(engine.SEED + 7)
    sim = [c for c in cs if c["mode"] == "default"]
    jobs = [rnd.sample(sim, rnd.choice([2, 3, 4])) for _ in range(150 if tier == "quick" else 2000)]
    recs = engine.pmap(proj_obs, jobs)
    for k, r in enumerate(recs):
        if "sites" not in r:
            recs[k] = observed({"mode": "default", "sites": [s for c in jobs[k] for s in c["sites"]]}, {"focus": "C07", "no_format": True}, "", {"exc": "TIMEOUT", "ret": None, "out": None})
        recs[k]["job"] = k
    rep.traces += len(recs)
    rep.cov["projects_converted"] = len(recs)
    for rec, clause, detail in engine.judge("ConvertTrace", recs, workers=1):
        files = [HEADS[n % len(HEADS)] + build(c) for n, c in enumerate(jobs[rec["job"]])]
        rep.violation(clause + ":project:" + hashlib.sha1("".join(files).encode()).hexdigest()[:12],
                      {"files": files, "expected": detail, "observed": {k: v for k, v in rec.items() if k not in ("kept", "sites", "obs")}})
