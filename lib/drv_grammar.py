"""C19, C14: programs derived from Grammar.tla (any Python construct), converted; the output must
parse and be the image the grammar prescribes."""
import ast, hashlib, json, re
import engine, conv

OTH = "import numpy as np\nfrom mylib import make, Cls\nimport aa.bb.cc\nfrom scipy.stats import norm as nrm\n"
HEADS = {
    "torch": ("import torch\n", "import paddle\n"),
    "none": ("import json\n", "import json\n"),
    "other": ("import torch\n" + OTH, "import paddle\n" + OTH),
    "bare": ("", ""),
    "doc": ("'''doc'''\nfrom __future__ import annotations\nimport torch\n", "'''doc'''\nfrom __future__ import annotations\nimport paddle\n"),
}
# variables that hold an imported API for a while, and something else afterwards
for _n in ("torch", "paddle"):
    VARS = ("import %s\n" % _n if _n == "paddle" else "from torch import abs, cat as c1\nfrom torch.nn import Linear as L1\n")
    for _v in "xyzfd":
        VARS += "%s = %s\n%s = own_0\n" % (_v, "abs" if _n == "torch" else "paddle.abs", _v)
    VARS += "def own_1(x, y, f):\n    z = %s\n    return 0\n" % ("c1" if _n == "torch" else "paddle.cat")
    HEADS["vars"] = (VARS,) if _n == "torch" else HEADS["vars"] + (VARS,)


def layout(t):
    out, d = [], 0
    for l in t.split("\n"):
        if l == "@I@":
            d += 1
        elif l == "@D@":
            d -= 1
        else:
            out.append("    " * d + l if l else l)
    return "\n".join(out)


def sort_imports(body):
    out, run = [], []
    for s in body + [None]:
        if isinstance(s, ast.Import):
            run += [ast.Import([a]) for a in s.names]
            continue
        if isinstance(s, ast.ImportFrom):
            run += [ast.ImportFrom(s.module, [a], s.level) for a in s.names]
            continue
        out += [x for _, x in sorted({ast.dump(x): x for x in run}.items())]
        run = []
        if s is not None:
            out.append(s)
    return out


def canon(tree, fmt=False):
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant):
            n.kind = None
        elif fmt and isinstance(n, ast.Delete):  # del (a, b) deletes what del a, b does
            while any(isinstance(x, (ast.Tuple, ast.List)) for x in n.targets):
                n.targets = [y for x in n.targets for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]
    # a string statement among the imports may end up before or behind them
    k = next((i for i, s in enumerate(tree.body) if not (isinstance(s, (ast.Import, ast.ImportFrom)) or is_str(s))), len(tree.body))
    tree.body[:k] = [s for s in tree.body[:k] if is_str(s)] + [s for s in tree.body[:k] if not is_str(s)]
    if fmt:
        for n in ast.walk(tree):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and is_str(n.body[0]):
                n.body[0].value.value = " ".join(n.body[0].value.value.split())
    if fmt:  # the formatter splits and sorts imports that stand together
        for n in ast.walk(tree):
            for b in ("body", "orelse", "finalbody"):
                if isinstance(getattr(n, b, None), list):
                    setattr(n, b, sort_imports(getattr(n, b)))
    return hashlib.sha1(ast.dump(tree).encode("utf-8", "surrogatepass")).hexdigest()


def canon_dump(tree):
    canon(tree, True)
    return ast.dump(tree)


def is_str(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def strip_import(tree, name):
    """the import of the converted package may stand anywhere among the imports at the top"""
    tree.body = [s for s in tree.body if not (isinstance(s, ast.Import) and [(a.name, a.asname) for a in s.names] == [(name, None)])]
    return tree


def parse(t):
    try:
        return ast.parse(t)
    except (SyntaxError, ValueError):
        return None


def observe(a):
    c, head, nf = a
    h = HEADS[head]
    src, img = h[0] + layout(c["src"]), h[1] + layout(c["img"])
    if parse(src) is None:
        return {"skip": True}
    r = conv.convert_text(src, no_format=nf)
    uses = c["src"] != c["img"]
    rec = {"exc": r["exc"], "valid": True, "want": "", "out": "", "uses": uses}
    if r["out"] is None:
        rec["exc"] = rec["exc"] or "NoOutput"
        return rec
    t = conv.parse(r["out"])
    if t is None:
        rec["valid"] = False
        return rec
    w = ast.parse(img)
    if "torch" not in h[0]:
        rec["want"], rec["out"] = canon(w, not nf), canon(t, not nf)
    else:
        rec["want"], rec["out"] = canon(strip_import(w, "paddle"), not nf), canon(strip_import(t, "paddle"), not nf)
    return rec


def ask(**kw):
    d = {"top": "S", "depth": 2, "spine": True, "torch": True, "new": True, "only": [], "other": False}
    d.update(kw)
    return engine.askfile(d)


def gen(**kw):
    r = engine.tlc("GenGrammar", env=ask(**kw), heap="4g", workers=2)
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def sim(k, n, depth=160, **kw):
    return engine.simulate("GenGrammar", n, env=ask(**kw), depth=depth, seed=engine.SEED * 100 + k, heap="3g")


# ------------------------------------------------------------ physical forms
CHAR = {"koi8-r": "\u0436", "gbk": "\u4e2d", "big5": "\u4e2d", "shift_jis": "\u4e2d", "euc-jp": "\u4e2d", "ascii": "e"}
BODIES = {
    "empty": ("", ""), "comment": ("# only a comment torch.abs\n", ""), "docstring": ("'''doc'''\n", "'''doc'''\n"),
    "plain": ("def f(x):\n@return x\nclass A:\n@y = f(1)\n@def g(self):\n@@pass\n", None),
    "torch": ("import torch\ndef f(x):\n@if x:\n@@return torch.abs(x)\n@return '#' + str(x)\n", "import paddle\ndef f(x):\n@if x:\n@@return paddle.abs(x)\n@return '#' + str(x)\n"),
    "nonascii": ("import torch\ns = '%s %s'\ndef f(x):\n@return torch.abs(x), '%s'\n", "import paddle\ns = '%s %s'\ndef f(x):\n@return paddle.abs(x), '%s'\n"),
    "onlyimport": ("def f():\n@import torch\nif x:\n@import torch\nelse:\n@import torch.nn as nn\n", None),
    "names": ("import torch\n%s = 1\ndef f%s(x):\n@return torch.abs(x), %s\n", "import paddle\n%s = 1\ndef f%s(x):\n@return paddle.abs(x), %s\n"),
    "unsupported": ("import torch\nfor i in x:\n@torch.foo_bar(i)\n@y = 1\n", "import torch\nfor i in x:\n@torch.foo_bar(i)\n@y = 1\n"),
    "passonly": ("class A:\n@pass\n", None),
}
HEAD = {"none": "", "shebang": "#!/usr/bin/env python\n", "comment": "# a comment\n", "blank": "\n", "formfeed": "\f\n", "doc": "'''head'''\n"}
TAIL = {"nl": "", "none": "", "blank": "\n\n\n", "comment": "# end\n", "backslash": "y = 1 + \\\n1\n", "spaces": "   \n"}
DECL = {"none": "", "emacs": "# -*- coding: %s -*-\n", "vim": "# vim: set fileencoding=%s :\n", "plain": "# coding=%s\n", "second": "# -*- coding: %s -*-\n", "upper": "# Coding: %s\n"}


def envelope(f):
    ch = CHAR.get(f["enc"], "\u00e9")
    src, img = BODIES[f["body"]]
    if f["body"] in ("nonascii", "names"):
        src, img = src % (ch, ch, ch), img % (ch, ch, ch)
    img = src if img is None else img
    ind = {"4": "    ", "1": " ", "tab": "\t", "8": " " * 8}[f["indent"]]
    name = f["enc"] if f["enc"] != "utf-8-sig" else "utf-8"
    decl = DECL[f["decl"]].replace("%s", name.upper() if f["decl"] == "upper" else name)
    if f["decl"] == "upper":
        decl = decl.replace("Coding", "coding")
    head = HEAD[f["head"]]
    text = (head + decl if f["decl"] == "second" else decl + head) + src + TAIL[f["tail"]]
    want = (head if f["head"] == "doc" else "") + img + (TAIL["backslash"] if f["tail"] == "backslash" else "")
    text, want = text.replace("@", ind), want.replace("@", "    ")
    if f["tail"] == "none":
        text = text[:-1] if text.endswith("\n") else text
    text = text.replace("\n", {"\\n": "\n", "\\r\\n": "\r\n", "\\r": "\r"}[f["line"]])
    return text.encode(f["enc"]), want


def observe_form(f):
    try:
        data, want = envelope(f)
        ast.parse(data)
    except (SyntaxError, ValueError):
        return {"skip": True}
    r = conv.convert_text(data)
    rec = {"exc": r["exc"], "valid": True, "want": "", "out": "", "uses": f["body"] in ("torch", "nonascii", "names")}
    if r["out"] is None:
        rec["exc"] = rec["exc"] or "NoOutput"
        return rec
    t = conv.parse(r["out"])
    if t is None:
        rec["valid"] = False
    elif f["body"] not in ("onlyimport",):
        rec["want"], rec["out"] = canon(strip_import(strip_import(ast.parse(want), "paddle"), "torch")), canon(strip_import(t, "paddle"))
    return rec


# ------------------------------------------------------------ whole programs
WRAP = [("", 0), ("def f(self, x):\n", 1), ("class A:\n    def g(self):\n", 2), ("for i in x:\n", 1), ("try:\n", 1), ("with q as w:\n    if x:\n        pass\n    else:\n", 2), ("async def f():\n    while x:\n", 2), ("match x:\n    case [1, *r]:\n", 2)]


def wrap(code, k):
    head, d = WRAP[k]
    body = code if not d else "".join("    " * d + l + "\n" if l.strip() else "\n" for l in code.split("\n"))
    out = head + body
    if head == "try:\n":
        out += "finally:\n    pass\n"
    return out


CANON = ("os", "einops")  # their imports are brought to one spelling even without PyTorch


def imported(tree):
    return [a.name for n in ast.walk(tree) if isinstance(n, ast.Import) for a in n.names] + \
           [n.module or "" for n in ast.walk(tree) if isinstance(n, ast.ImportFrom)]


def observe_text(a):
    """validity of the conversion of an arbitrary program; with same=True the tree is kept"""
    code, nf, same = a
    try:
        src = ast.parse(code)
    except (SyntaxError, ValueError, RecursionError):
        return {"skip": True}
    r = conv.convert_text(code, no_format=nf)
    rec = {"exc": r["exc"], "valid": True, "want": "", "out": "", "uses": False}
    if r["out"] is None:
        rec["exc"] = rec["exc"] or "NoOutput"
        return rec
    t = conv.parse(r["out"])
    if t is None:
        rec["valid"] = False
    elif same and not any(m.split(".")[0] in CANON for m in imported(src)):
        rec["want"], rec["out"] = canon(src, not nf), canon(t, not nf)
    return rec


def stdlib(step, k=0):
    """files of the standard library and of the packages installed beside it""" 
    import os, sysconfig
    out = []
    for base in (sysconfig.get_path("stdlib"),):
        for b, ds, fs in os.walk(base):
            ds[:] = sorted(d for d in ds if d not in ("site-packages", "dist-packages", "__pycache__", "lib2to3"))
            for f in sorted(fs):
                p = os.path.join(b, f)
                if f.endswith(".py") and os.path.getsize(p) < 60000:
                    out.append(p)
    out = out[k % step::step]
    res = []
    for p in out:
        with open(p, "rb") as f:
            res.append((p, f.read()))
    return res


def packages(step, k=0):
    """files of the installed packages, PyTorch's own among them"""
    import os, sysconfig
    base = sysconfig.get_path("purelib")
    out = []
    for d in ("torch", "torchvision", "functorch", "sympy", "networkx", "pandas", "numpy"):
        for b, ds, fs in os.walk(os.path.join(base, d)):
            ds.sort()
            out += [os.path.join(b, x) for x in sorted(fs) if x.endswith(".py") and os.path.getsize(os.path.join(b, x)) < 80000 and x not in DEEP]
    out.sort()
    return out[k % step::step]


DEEP = ("resolvent_lookup.py",)  # nested beyond the recursion limit


def observe_file(a):
    p, nf = a
    with open(p, "rb") as f:
        b = f.read()
    return observe_text((b.decode("utf-8", "replace"), nf, b"torch" not in b))


def instance(api, form):
    import drv_bind
    n = api
    for c, v in (("torch.Tensor.", "x."), ("torch.nn.Module.", "x.")):
        if n.startswith(c):
            n = v + n[len(c):]
    t = form["text"].replace("\\@", "\0").replace("@", n).replace("\0", "@")
    return drv_bind.head(api) + t + "\n"


def all_apis():
    import os
    out = set()
    for f in ("api_mapping", "attribute_mapping", "api_alias_mapping"):
        with open(os.path.join(engine.REPO, "paconvert", f + ".json")) as g:
            out |= set(json.load(g))
    return sorted(out)


def observe_use(a):
    api, form = a
    return observe_text((instance(api, form), True, False))


# ------------------------------------------------------------ the checks
def cases(pid, tier):
    q = tier == "quick"
    n = 1200 if q else 20000
    if pid == "C14":
        jobs = [lambda: gen(torch=False), lambda: gen(top="E", torch=False), lambda: gen(top="O", other=True, torch=True, new=False),
                lambda: sim(1, n, spine=False, depth=3, torch=False), lambda: sim(2, n // 2, spine=False, top="B", depth=3, other=True, new=False), lambda: sim(3, n // 2, spine=False, top="O", depth=4, other=True, new=False),
                lambda: gen(top="M", other=True, torch=True, new=False)]
        heads = [["none", "bare"], ["none", "vars"], ["other"], ["none", "torch", "vars"], ["other"], ["other"], ["other"]]
    else:
        jobs = [lambda: gen(), lambda: gen(top="E"), lambda: sim(11, n, spine=False, depth=3), lambda: sim(12, n, spine=False, top="B", depth=4), lambda: sim(13, n // 2, spine=True, depth=7), lambda: sim(14, n // 2, spine=True, top="E", depth=9)]
        heads = [["torch"], ["torch"], ["torch", "doc"], ["torch"], ["torch", "doc"], ["torch"]]
    res = engine.par(*jobs)
    out = []
    for g, hs in zip(res, heads):
        for n, c in enumerate(g):
            if not c["src"].endswith("\n"):
                c = dict(c, src="x = " + c["src"] + "\n", img="x = " + c["img"] + "\n")
            out.append((c, hs[n % len(hs)]))
    return out, [len(g) for g in res]


def check(pid, tier, rep):
    q = tier == "quick"
    cs, rep.cov["derived_programs"] = cases(pid, tier)
    step = 8 if q else 1
    jobs = [(observe, (c, h, not (n % 16 == 7)), "program") for n, (c, h) in enumerate(cs)]
    files = stdlib(step, engine.SEED)
    if pid == "C19":
        forms = engine.tlc("Envelope", "GenEnvelope" if q else "GenEnvelopeFull", heap="3g").json("CASE")
        rep.cov["physical_forms"] = len(forms)
        jobs += [(observe_form, f, "form") for f in forms]
        corpus = engine.load_corpus()
        rep.cov["corpus"] = len(corpus)
        for n, (name, code) in enumerate(corpus):
            for k in range(len(WRAP)) if not q else [(n + engine.SEED) % len(WRAP)]:
                jobs.append((observe_text, (wrap(code, k), not (n % 40 == 3), False), "corpus:" + name))
        for n, (p, b) in enumerate(files):
            t = b.decode("utf-8", "replace")
            m = re.search(r"(?m)^(?:import|from) (?!__future__)", t)
            if m:
                jobs.append((observe_text, (t[:m.start()] + "import torch\n" + t[m.start():], True, False), "lib:" + p))
        apis, uses = all_apis(), engine.tlc("Forms", "GenForms", heap="2g").json("CASE")
        rep.cov["apis"], rep.cov["forms_of_use"] = len(apis), len(uses)
        for n, a in enumerate(apis):
            for m, f in enumerate(uses):
                if not q or (n * 7 + m + engine.SEED) % 24 == 0:
                    jobs.append((observe_use, (a, f), "use"))
    else:
        for n, (p, b) in enumerate(files):
            t = b.decode("utf-8", "replace")
            jobs.append((observe_text, (t, True, True), "lib:" + p))
    pk = packages(20 if q else 1, engine.SEED)
    rep.cov["package_files"] = len(pk)
    jobs += [(observe_file, (p, not (n % 24 == 5)), "lib:" + p) for n, p in enumerate(pk)]
    rep.cov["library_files"] = len(files)
    recs = engine.pmap(run_job, jobs, limit=90)
    keep = []
    for k, r in enumerate(recs):
        if "skip" in r:
            continue
        if "valid" not in r:
            r = {"exc": r.get("exc") or "TIMEOUT", "valid": True, "want": "", "out": "", "uses": False}
        keep.append(dict(r, job=k))
    rep.cov["skipped"] = len(recs) - len(keep)
    rep.traces += len(keep)
    bads = []
    for at in range(0, len(keep), 150000):
        parts = [keep[at:at + 150000][a::3] for a in range(3)]
        bads += engine.par(*[lambda c=c: engine.judge("GrammarTrace", c, workers=1, heap="4g") for c in parts if c])
    for rec, clause, detail in [b for l in bads for b in l]:
        if clause.startswith("C19") and pid == "C14":
            clause = "C14." + clause[4:]
        fn, a, kind = jobs[rec["job"]]
        text = source_of(fn, a)
        key = clause + ":" + hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:12]
        rep.violation(key, {"kind": kind, "program": text[-3000:], "image": layout(a[0]["img"]) if fn is observe else "", "exc": rec["exc"], "args": a[1:] if fn in (observe, observe_text) else a})
    for fn, a, kind in jobs[::max(1, len(jobs) // 6)]:
        rep.sample(source_of(fn, a)[:300])


def source_of(fn, a):
    if fn is observe:
        return HEADS[a[1]][0] + layout(a[0]["src"])
    if fn is observe_form:
        return json.dumps(a, sort_keys=True)
    if fn is observe_use:
        return instance(*a)
    if fn is observe_file:
        with open(a[0], "rb") as f:
            return f.read().decode("utf-8", "replace")
    return a[0]


def run_job(j):
    return j[0](j[1])
