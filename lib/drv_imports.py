"""C10, C11, C12: import statements and spellings generated from Imports.tla."""
import ast, builtins, copy, hashlib, json, os, random, re, symtable
import engine, conv, ctx
from drv_convert import strip_ann, norm, first_line, sentinel

PLACES = {
    "top": "{I}{U}",
    "func": "def fz():\n    place_func()\n{I1}{U1}",
    "afunc": "async def fza(q9):\n    place_afunc()\n{I1}{U1}",
    "class": "class Cz:\n    place_class()\n{I1}{U1}",
    "method": "class Cy:\n    def mz(self):\n        place_method()\n{I2}{U2}",
    "try": "try:\n    place_try()\n{I1}except ImportError:\n    gn(1)\n{U}",
    "except": "try:\n    gn(2)\nexcept ImportError:\n    place_except()\n{I1}{U}",
    "tryelse": "try:\n    gn(3)\nexcept ImportError:\n    gn(3)\nelse:\n    place_tryelse()\n{I1}{U}",
    "finally": "try:\n    gn(4)\nfinally:\n    place_finally()\n{I1}{U}",
    "if": "if c9:\n    place_if()\n{I1}{U}",
    "else": "if c9:\n    gn(5)\nelse:\n    place_else()\n{I1}{U}",
    "elif": "if c9:\n    gn(5)\nelif c8:\n    place_elif()\n{I1}{U}",
    "with": "with gn(6):\n    place_with()\n{I1}{U}",
    "for": "for i9 in gn(7):\n    place_for()\n{I1}{U}",
    "while": "while gn(8):\n    place_while()\n{I1}{U}",
    "deep": "def fy():\n    if c7:\n        place_deep()\n{I2}{U2}",
}
ORDER = list(PLACES)
HEAD = ["", "'''Doc of the file: import torch\n'''\n", "'''Doc'''\nfrom __future__ import annotations\nfrom __future__ import division\n", "from __future__ import annotations\n"]


def dot(p):
    return p[0] + ".".join(p[1:]) if p[0].startswith(".") else ".".join(p)


def imp_text(st):
    w = st["names"][0]
    al = lambda n, a: n + (" as " + a if a else "")
    if w["form"] == "import":
        return "import " + ", ".join(al(dot(x["mod"]), x["as"]) for x in st["names"]) + "\n"
    return "from " + dot(w["mod"]) + " import " + ", ".join(al(x["name"], x["as"]) for x in st["names"]) + "\n"


def ind(t, n):
    return "".join("    " * n + l for l in t.splitlines(True))


def use_text(n, u, e):
    return "site_%d()\n" % n + ctx.prog(u["ctx"], re.sub(r"\bv\b", "v%d" % n, e))


def build(case, key, imports=True):
    out = []
    for p in ORDER:
        sts = [s for s in case["stmts"] if s["place"] == p]
        us = [(n, u) for n, u in enumerate(case["uses"], 1) if u["place"] == p]
        if not sts and p != "top":
            continue
        i = "".join(imp_text(s) for s in sts) if imports else ""
        t = "".join(use_text(n, u, case[key][n - 1]) for n, u in us)
        if t or p == "top":
            t += "site_%d()\n" % (900 + ORDER.index(p))
        out.append(PLACES[p].format(I=i, U=t, I1=ind(i, 1), U1=ind(t, 1), I2=ind(i, 2), U2=ind(t, 2)))
    return "".join(out)


def lists(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                yield n, b


def sites_of(tree):
    res = {}
    for _, b in lists(tree):
        cur = None
        for st in b:
            k = sentinel(st)
            if k is not None:
                cur = k
                res[cur] = []
            elif cur is not None:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id.startswith("place_"):
                    continue
                res[cur].append(st)
    return res


def place_of(b, mod):
    if b is mod.body:
        return "top"
    for st in b:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id.startswith("place_"):
            return st.value.func.id[6:]
    return "?"


def imps_of(tree):
    res = []
    for _, b in lists(tree):
        p = None
        for st in b:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                p = p or place_of(b, tree)
                for a in st.names:
                    if isinstance(st, ast.Import):
                        res.append("%s|import|%s||%s" % (p, a.name, a.asname or ""))
                    elif st.module != "__future__":
                        res.append("%s|from|%s|%s|%s" % (p, "." * st.level + (st.module or ""), a.name, a.asname or ""))
    return res


# ------------------------------------------------------------------ names
def tables(t):
    yield t
    for c in t.get_children():
        yield from tables(c)


def free_names(text):
    """names used as globals that the module does not bind -> set, plus whether a star import is there"""
    top = symtable.symtable(text, "m", "exec")
    bound, used = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__"}, set()
    for t in tables(top):
        for s in t.get_symbols():
            if t is top:
                if s.is_assigned() or s.is_imported() or s.is_namespace():
                    bound.add(s.get_name())
                if s.is_referenced():
                    used.add(s.get_name())
            else:
                if s.is_global():
                    if s.is_assigned():
                        bound.add(s.get_name())
                    if s.is_referenced():
                        used.add(s.get_name())
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(ast.parse(text)))
    return used - bound, star


def binding_lines(tree):
    res = {}

    def add(n, l):
        res[n] = min(res.get(n, l), l)

    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            add(n.id, n.lineno)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(n.name, n.lineno)
        elif isinstance(n, ast.arg):
            add(n.arg, n.lineno)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add(a.asname or a.name.split(".")[0], n.lineno)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name, n.lineno)
    return res


def name_uses(src, out):
    """-> free names of the source; for the converted text a list of [name, bound, early, marked]"""
    free, star = free_names(src)
    if star:
        free = set()
    clean = conv.unmark(out)
    marked = {i + 1 for i in conv.marked_lines(out)}
    f2, star2 = free_names(clean)
    tree = ast.parse(clean)
    old = {n.id for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Name)} | set(binding_lines(ast.parse(src)))
    bl = binding_lines(tree)
    used = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id in f2:
                used.append((n.id, False, False, n.lineno in marked))
            elif n.id not in old and n.id in bl:
                # generated: bound above its use
                used.append((n.id, True, n.lineno < bl[n.id] or False, n.lineno in marked))
    used = [{"name": a, "bound": b, "early": c, "marked": d} for a, b, c, d in sorted(set(used))]
    return sorted(free), used, star2


# ------------------------------------------------------------------ observing
def observe(a):
    case, opt = a
    code = HEAD[opt["head"]] + build(case, "src")
    sib = {"torch_local.py": "x = 1\n"}
    if case["loc"] == "datasets":
        sib.update({"datasets/__init__.py": "", "datasets/local_a.py": "x = 1\n"})
    elif case["loc"] == "nsdatasets":
        sib.update({"datasets/local_a.py": "x = 1\n", "datasets/data.txt": "x"})
    elif case["loc"] == "timm":
        sib.update({"timm.py": "x = 1\n"})
    r = conv.convert_text(code, no_format=opt["no_format"], siblings=sib)
    return observed(case, opt, code, r)


def observed(case, opt, code, r):
    k = len(case["uses"])
    rec = {"loc": case["loc"], "stmts": case["stmts"], "uses": case["uses"], "exp": case["exp"], "exc": r["exc"], "ret": r["ret"] or [-1, -1],
           "same": [False] * k, "imps": [], "once": opt["no_format"], "doc": False, "future": False, "rest": False, "dangling": [], "focus": opt["focus"]}
    out = r["out"]
    if out is None:
        rec["exc"] = rec["exc"] or "NoOutput"
        return rec
    try:
        tree = ast.parse(conv.unmark(out))
        got = sites_of(tree)
        exp = sites_of(exp_tree(case, opt))
        for n in range(1, k + 1):
            rec["same"][n - 1] = n in got and norm(noimp(got[n])) == norm(noimp(exp[n]))
        rec["imps"] = imps_of(tree)
        src = ast.parse(code)
        rec["doc"] = squeeze(ast.get_docstring(src)) == squeeze(ast.get_docstring(tree))
        nf = lambda t: [a.name for n in ast.walk(t) if isinstance(n, ast.ImportFrom) and n.module == "__future__" for a in n.names]
        rec["future"] = sorted(nf(src)) == sorted(nf(tree)) and compiles(conv.unmark(out))
        rec["rest"] = rest(tree, case, exp_tree(case, opt))
        if opt["focus"] == "C12":
            free, used, star = name_uses(code, out)
            rec["dangling"] = sorted({u["name"] for u in used if not u["bound"] and u["name"] not in free and not u["marked"]} | {u["name"] for u in used if u["bound"] and u["early"]})
    except (SyntaxError, ValueError):
        rec["exc"] = "InvalidPython"
    return rec


def compiles(t):
    try:
        compile(t, "m", "exec", dont_inherit=True)
        return True
    except SyntaxError as e:
        return "__future__" not in str(e)


def noimp(body):
    return [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom))]


def squeeze(s):
    return " ".join((s or "").split())


def exp_tree(case, opt):
    return ast.parse(HEAD[opt["head"]] + build(case, "exp"))


class Drop(ast.NodeTransformer):
    """without imports, and 'pass' (which may replace them)"""
    def visit_Import(self, n):
        return None

    def visit_ImportFrom(self, n):
        return None

    def visit_Pass(self, n):
        return None


def rest(tree, case, exp):
    a = ast.dump(conv.squeeze_docstrings(strip_ann(Drop().visit(copy.deepcopy(tree)))))
    b = ast.dump(conv.squeeze_docstrings(strip_ann(Drop().visit(copy.deepcopy(exp)))))
    return a == b


def ask(**kw):
    d = {"apis": [], "places": ["top"], "stmts": 1, "names": 1, "uses": 1, "ctxs": ["assign"], "locals": ["", "datasets", "nsdatasets", "timm"], "as": ["al1", "nn", "F", "torch2", "my_os", "np", "al7", "al8", "al9", "al10", "al11", "al12", "al13"]}
    d.update(kw)
    return engine.askfile(d)


QUOTED = {"envw", "osj", "einr", "dev"}
LAMBDA = {"fstr", "fstrspec", "fstrconv"}


def gen(**kw):
    r = engine.tlc("GenImports", env=ask(**kw))
    return [json.loads(x) for x in sorted(set(r.records.get("CASE", [])))]


def okctx(c):
    return not any(u["ctx"] in LAMBDA and u["api"] in QUOTED for u in c["uses"])


def cases(tier):
    quick = tier == "quick"
    cx = sorted(ctx.CTX)
    w = ["relu", "foo", "osj", "npabs", "tools", "locd", "envw", "ein"]
    few = ["avgp", "foo", "lincls", "osj", "npabs", "locs", "rel2"]
    num = 150 if quick else 8000
    sim = lambda k: lambda: engine.simulate("GenImports", num, env=ask(places=ORDER, stmts=3, names=3, uses=4, ctxs=cx), depth=60, seed=engine.SEED * 100 + k)
    a, b, c, d, e, f = engine.par(
        lambda: gen(places=ORDER),
        lambda: gen(apis=few if quick else [], ctxs=cx, locals=["timm"] if quick else ["", "datasets", "nsdatasets", "timm"]),
        lambda: gen(apis=w, names=2, uses=2, locals=["datasets"] if quick else ["datasets", "nsdatasets"]),
        sim(1), sim(2),
        # the file imports Paddle already
        lambda: gen(apis=["absref", "pdl"] if quick else ["abs", "trf", "pdl", "pdn"], places=["top", "func", "class", "if", "try", "method", "deep"], stmts=2, names=1, uses=2, locals=[""]))
    cov = {"spellings_x_places": len(a), "spellings_x_contexts": len(b), "pairs_in_one_statement": len(c), "random_programs": len(d) + len(e), "own_imports_of_paddle": len(f)}
    return [x for x in a + b + c + d + e + f if okctx(x)], cov


def twice(c):
    """isort loses the plain one of two imports of a module in one statement (finding of C11)"""
    return any(len({dot(w["mod"]) for w in st["names"]}) < len(st["names"]) for st in c["stmts"] if st["names"][0]["form"] == "import")


TWICE = {"loc": "", "stmts": [{"place": "top", "names": [{"form": "import", "mod": ["scipy", "ndimage"], "name": "", "as": "al1"}, {"form": "import", "mod": ["scipy", "ndimage"], "name": "", "as": ""}]}],
         "uses": [], "src": [], "exp": []}


def check(pid, tier, rep):
    mc = engine.tlc_start("MCImports", workers=2, heap="3g")
    cs, cov = cases(tier)
    rep.cov.update(cov)
    jobs = [(c, {"focus": pid, "head": n % 4, "no_format": n % 9 != 8 or twice(c)}) for n, c in enumerate(cs)]
    if pid == "C11":
        jobs.append((TWICE, {"focus": pid, "head": 0, "no_format": False}))
    recs = engine.pmap(observe, jobs)
    for k, (r, (c, o)) in enumerate(zip(recs, jobs)):
        if "stmts" not in r:
            recs[k] = observed(c, o, "", {"exc": r.get("exc") or "TIMEOUT", "ret": None, "out": None})
        recs[k]["job"] = k
    rep.traces += len(recs)
    for rec, clause, detail in engine.judge("ImportsTrace", recs):
        c, o = jobs[rec["job"]]
        code = HEAD[o["head"]] + build(c, "src")
        rep.violation(clause + ":" + ("formatted-double-import" if c is TWICE else hashlib.sha1(code.encode()).hexdigest()[:12]),
                      {"program": code, "loc": c["loc"], "options": o, "expected": detail, "observed": {k: v for k, v in rec.items() if k not in ("stmts", "uses")}})
    for c in cs[:: max(1, len(cs) // 6)]:
        rep.sample(build(c, "src"))
    if pid == "C12":
        names(tier, rep)
    engine.tlc_finish(mc)


# ------------------------------------------------------------------ C12 on programs at large
def obs_names(a):
    code, kw = a
    r = conv.convert_text(code, **kw)
    rec = {"exc": "", "free": [], "used": []}
    if r["out"] is None or r["exc"]:
        return dict(rec, exc=r["exc"] or "NoOutput")
    try:
        free, used, star = name_uses(code, r["out"])
    except (SyntaxError, ValueError):
        return dict(rec, exc="InvalidPython")
    return dict(rec, free=free, used=used)


SPECIAL = {
    "onnx-helper": "import torch\ntorch.onnx.export(model, f='m.onnx')\n",
    "torch-only-through-transformers": "import os\nimport transformers\ny = os.environ.get('WORLD_SIZE')\nx.max(3)\n",
    "star-import": "from torch.nn.functional import *\ny = relu(x)\n",
    "package-as-value": "import torch\ny = getattr(torch, 'abs')(x)\n",
    "package-alias-as-value": "import torch as T\nfn(T)\n",
    "use-before-import": "def f(x):\n    return T.abs(x)\n\n\nimport torch as T\n",
}


def names(tier, rep):
    jobs = [(t[1], {}) for t in engine.load_corpus()]
    if tier != "quick":
        jobs += [(t, {"no_format": False}) for t, _ in jobs[:]] + [(t, {"mode": "min"}) for t, _ in jobs[:]]
    jobs = [(t, k) for t, k in jobs if valid(t)] + [(t, {}) for t in SPECIAL.values()]
    recs = engine.pmap(obs_names, jobs)
    label = {t: k for k, t in SPECIAL.items()}
    for k, r in enumerate(recs):
        if "used" not in r:
            recs[k] = {"exc": "TIMEOUT", "free": [], "used": []}
        recs[k]["job"] = k
    rep.traces += len(recs)
    rep.cov["corpus_programs"] = len(recs)
    for rec, clause, detail in engine.judge("Names", recs):
        code = jobs[rec["job"]][0]
        names = sorted((detail or {}).get("loose", []))
        if names == ["Logic", "filename"] and "onnx" in code:
            code, names = SPECIAL["onnx-helper"], names
        key = clause + ":" + (label.get(code) or hashlib.sha1(code.encode()).hexdigest()[:12])
        rep.violation(key, {"program": code, "options": jobs[rec["job"]][1], "names": detail, "error": rec["exc"]})


def valid(t):
    try:
        ast.parse(t)
        return True
    except (SyntaxError, ValueError):
        return False
