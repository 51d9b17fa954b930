"""C17: programs of uses generated from Helper.tla are written as single files and directories,
converted one run after the other in one process; the helper code left behind is read back."""
import ast, hashlib, json, os, re, shutil, sys, tempfile
import engine, conv
from drv_imports import free_names

IMPS = "import torch\nimport torchvision\nimport transformers\nimport flash_attn\nimport numpy as np\n"
HEADS = {
    "plain": IMPS,
    "doc": "'''a torch docstring'''\n" + IMPS,
    "future": "from __future__ import annotations\n" + IMPS,
    "docfuture": "# -*- coding: utf-8 -*-\n'''doc\nmore'''\nfrom __future__ import annotations, division\n" + IMPS,
    "multi": "from os.path import (\n    join,\n    exists,\n)\n" + IMPS + "from collections import (OrderedDict,\n    namedtuple)\n",
    "long": IMPS + "from own_pkg.first import " + ", ".join("own_first_name_number_%d" % n for n in range(6)) + "\nfrom own_pkg.second import (own_a, own_b)\n",
    "longfirst": "from own_pkg.first import (  # why\n    own_first_name_of_many,\n    own_second_name_of_many,\n    own_third_name_of_many as own_t,\n)\n" + IMPS + "import own_pkg.module_with_a_long_name.and_another_long_name as own_alias, own_pkg.third as own_third\n",
    "late": "import torch\nimport numpy as np\nfrom os.path import join\nimport torchvision, transformers\nimport flash_attn\nif True:\n    import json\n",
    "future2": "from __future__ import annotations\n" + IMPS + "from sys import path as spath\n",
}
HEADKINDS = sorted(HEADS)
PLACES = {
    "mod": "y{n} = {s}\n",
    "expr": "print({s})\n",
    "func": "def own_{n}(v, w):\n    return {s}\n",
    "nested": "def own_{n}(v):\n    def own_in(q):\n        if q:\n            return {s}\n        return own_in(v)\n    return own_in\n",
    "class": "class Own_{n}:\n    z = {s}\n",
    "method": "class Own_{n}:\n    def m(self, v):\n        self.z = {s}\n        return self\n",
    "default": "def own_{n}(v, q={s}):\n    return q\n",
    "deco": "@fn({s})\ndef own_{n}(v):\n    return v\n",
    "lambda": "y{n} = lambda v: {s}\n",
    "comp": "y{n} = [{s} for v in w]\n",
    "cond": "if fn(v):\n    y{n} = {s}\nelse:\n    y{n} = None\n",
    "try": "try:\n    y{n} = {s}\nexcept ValueError:\n    raise\n",
    "with": "with fn(v) as own_q:\n    y{n} = {s}\n",
    "arg": "y{n} = fn(1, [{s}, 2], k={{'a': {s}}})\n",
    "async": "async def own_{n}(v):\n    await fn({s})\n",
    "annot": "y{n}: list = {s}\n",
    "base": "class Own_{n}(fn({s})):\n    pass\n",
}
PATHS = ["a.py", "sub/b.py", "sub/deep/c.py", "d.py", "pkg/__init__.py"]


def render(f):
    out = HEADS[f["head"]] + "begin_0()\n"
    for n, u in enumerate(f["uses"]):
        out += PLACES[u["p"]].format(n=n, s=u["s"])
    return out


def helper_stmts(body):
    return [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom))
            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def is_sent(s):
    return isinstance(s, ast.Expr) and ast.unparse(s) == "begin_0()"


def patched(stmts):
    return {n.args[1].value for s in stmts for n in ast.walk(s)
            if isinstance(n, ast.Call) and ast.unparse(n.func) == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant)}


def split_file(src, text):
    """-> (helper statements before the program, position fine?)"""
    tree = ast.parse(conv.unmark(text))
    k = next((i for i, s in enumerate(tree.body) if is_sent(s)), None)
    if k is None:
        return [], tree, False
    front = tree.body[:k]
    st = ast.parse(src)
    own = set()
    for s in st.body[:next(i for i, s in enumerate(st.body) if is_sent(s))]:
        own.add(ast.dump(s))
    ok = ast.get_docstring(tree, clean=False) == ast.get_docstring(st, clean=False)
    fut = lambda t: sorted(a.name for s in t.body if isinstance(s, ast.ImportFrom) and s.module == "__future__" for a in s.names)
    ok = ok and fut(tree) == fut(st)
    try:
        compile(conv.unmark(text), "m", "exec")
    except (SyntaxError, ValueError):
        ok = False
    return [s for s in helper_stmts(front) if ast.dump(s) not in own], tree, ok


def uses_util_module(tree, outdir):
    """0: does not import it; 1: imports it once at the top of the file, path set before; 2: anything else"""
    imps = [(i, s) for i, s in enumerate(tree.body) if isinstance(s, ast.ImportFrom) and s.module == "paddle_utils" and s.level == 0]
    every = [s for s in ast.walk(tree) if isinstance(s, ast.ImportFrom) and s.module == "paddle_utils"
             or isinstance(s, ast.Import) and any(a.name == "paddle_utils" for a in s.names)]
    if not every:
        return 0
    if len(every) != 1 or len(imps) != 1:
        return 2
    i = imps[0][0]
    if [a.name for a in imps[0][1].names] != ["*"]:
        return 2
    k = next((j for j, s in enumerate(tree.body) if is_sent(s)), -1)
    if i > k:
        return 2
    for s in tree.body[:i]:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("sys.path.append", "sys.path.insert") and isinstance(n.args[-1], ast.Constant):
                if os.path.realpath(str(n.args[-1].value)) == os.path.realpath(outdir):
                    return 1
    return 2


def run_once(run, d, nf):
    """-> dict with exc, helper statements, files"""
    C = sys.modules["paconvert.converter"]
    os.makedirs(d + "/in")
    srcs = [render(f) for f in run["files"]]
    paths = PATHS[:len(srcs)]
    for p, s in zip(paths, srcs):
        os.makedirs(os.path.dirname(d + "/in/" + p), exist_ok=True)
        with open(d + "/in/" + p, "w") as f:
            f.write(s)
    src, dst = (d + "/in", d + "/out") if run["dir"] else (d + "/in/" + paths[0], d + "/out.py")
    o = {"exc": "", "stmts": [], "module": False, "imports": [], "inline": [], "free": [], "head": True, "patch": []}
    cv = None
    cwd = os.getcwd()
    os.chdir(d)
    try:
        cv = C.Converter(no_format=nf, log_dir=d + "/log")
        cv.run(src, dst)
    except engine.CaseTimeout:
        raise
    except BaseException as e:
        o["exc"] = type(e).__name__
        return o
    finally:
        os.chdir(cwd)
        for h in list(getattr(getattr(cv, "logger", None), "handlers", [])):
            h.close()
            cv.logger.removeHandler(h)
    try:
        provided = set()
        if run["dir"]:
            mp = dst + "/paddle_utils.py"
            o["module"] = os.path.exists(mp)
            if o["module"]:
                with open(mp) as f:
                    text = f.read()
                body = ast.parse(text).body
                o["stmts"] += helper_stmts(body)
                fr, _ = free_names(text)
                o["free"] += ["module:" + x for x in sorted(fr)]
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        provided.add(s.name)
                    for n in ast.walk(s) if isinstance(s, (ast.Assign, ast.AugAssign)) else []:
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            provided.add(n.id)
        for n, (p, s) in enumerate(zip(paths, srcs)):
            q = dst + "/" + p if run["dir"] else dst
            with open(q) as f:
                text = f.read()
            front, tree, ok = split_file(s, text)
            if run["dir"]:
                front = [x for x in front if not (isinstance(x, ast.Expr) and ast.unparse(x).startswith("sys.path."))]
                u = uses_util_module(tree, dst)
                if u:
                    o["imports"].append(n + 1)
                ok = ok and u != 2
            else:
                if "paddle_utils" in {m for x in ast.walk(tree) if isinstance(x, ast.ImportFrom) for m in [x.module]}:
                    o["imports"].append(n + 1)
            if front:
                o["inline"].append(n + 1)
                o["stmts"] += front
            o["head"] = o["head"] and ok
            fr, _ = free_names(conv.unmark(text))
            vis = provided if n + 1 in o["imports"] else set()
            o["free"] += sorted(fr - free_names(s)[0] - vis - {"torch", "torchvision", "transformers", "flash_attn"})
        o["patch"] = sorted(patched(o["stmts"]))
        o["stmts"] = [ast.dump(x) for x in o["stmts"]]
    except (SyntaxError, ValueError, OSError) as e:
        o["exc"], o["stmts"] = "BadOutput:" + type(e).__name__, []
    return o


def base(s):
    d = tempfile.mkdtemp(prefix="h", dir=engine.WORKDIR)
    try:
        return run_once({"dir": False, "files": [{"head": "plain", "uses": [{"p": "mod", "s": s}]}]}, d, True)["stmts"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(a):
    case, nf = a
    d = tempfile.mkdtemp(prefix="h", dir=engine.WORKDIR)
    try:
        return {"runs": case["runs"], "obs": [run_once(r, "%s/%d" % (d, n), nf) for n, r in enumerate(case["runs"])]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def finish(rec, chunk, helper_of):
    """counts of helper statements -> chunks, excess"""
    shared = {}
    for h, c in chunk.items():
        for s in set(c):
            shared.setdefault(s, set()).add(h)
    for run, o in zip(rec["runs"], rec["obs"]):
        st = o.pop("stmts", [])
        need = {helper_of[u["k"]] for f in run["files"] for u in f["uses"]} - {""}
        ch = []
        for h in sorted(need):
            c = chunk.get(h) or []
            if not c:
                ch.append([h, 0])
                continue
            low = min(st.count(s) for s in c)
            high = max([st.count(s) for s in c if len(shared[s]) == 1] or [low])
            ch.append([h, 0 if low == 0 else max(1, high)])
        ok = {s for h in need for s in chunk.get(h) or []}
        o["chunks"] = ch
        o["excess"] = sum(1 for s in st if s not in ok)
    return rec


def ask(**kw):
    d = {"kinds": [], "heads": ["plain"], "places": ["mod"], "runs": 1, "files": 1, "uses": 1, "dirs": [False]}
    d.update(kw)
    return engine.askfile(d)


def gen(**kw):
    r = engine.tlc("GenHelper", env=ask(**kw), heap="3g", workers=2)
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def cases(tier):
    q = tier == "quick"
    n = 250 if q else 5000
    allp, allh = sorted(PLACES), HEADKINDS
    sim = lambda k, **kw: lambda: engine.simulate("GenHelper", n, env=ask(heads=allh, places=allp, **kw), depth=80, seed=engine.SEED * 100 + k, heap="3g")
    jobs = [
        lambda: gen(heads=allh),                                   # every use x head, single file
        lambda: gen(places=allp),                                  # every use x place, single file
        lambda: gen(uses=2),                                       # every pair of uses in one file
        lambda: gen(dirs=[True], heads=["plain", "docfuture"]),     # a directory of one file
        sim(1, dirs=[True], files=2, uses=1), sim(2, dirs=[True], files=4, uses=3),
        sim(3, dirs=[False], runs=3, uses=2), sim(4, dirs=[True, False], runs=3, files=3, uses=2),
        sim(5, dirs=[False], uses=6), sim(6, dirs=[True, False], runs=4, files=2, uses=2, kinds=["plain", "abs", "max", "split", "fpow", "fpow2", "flag"]),
    ]
    return engine.par(*jobs[:4]) + engine.par(*jobs[4:])


def kinds():
    """the table K of Helper.tla, printed by TLC"""
    r = engine.tlc("GenHelper", cfg="GenHelperK", env=ask(), heap="1g", workers=1)
    return {k["k"]: k for k in r.json("KIND")}


def check(pid, tier, rep):
    mc = engine.tlc_start("Helper", "MCHelper", workers=2, heap="3g")
    K = kinds()
    groups = cases(tier)
    rep.cov["cases"] = [len(g) for g in groups]
    cs = [c for g in groups for c in g]
    for c in cs:  # a directory holds at most as many files as there are names for
        for r in c["runs"]:
            r["files"] = r["files"][:len(PATHS)]
    names = sorted(K)
    got = dict(zip(names, engine.pmap(base, [K[k]["s"] for k in names])))
    chunk = {}
    for k in names:
        b = got[k] if isinstance(got[k], list) else []
        if K[k]["h"]:
            if K[k]["h"] not in chunk or not chunk[K[k]["h"]]:
                chunk[K[k]["h"]] = b
        elif b:
            rep.violation("C17.helper-without-need:" + k, {"use": K[k]["s"], "brings": b})
    rep.cov["helpers"] = {h: len(c) for h, c in chunk.items()}
    jobs = [(c, n % 9 != 4) for n, c in enumerate(cs)]
    # the formatter writes long imports on several lines: every use x head once more with it
    jobs += [(c, False) for c in groups[0] if any(f["head"].startswith("long") for r in c["runs"] for f in r["files"])]
    recs = engine.pmap(observe, jobs)
    hof = {k: K[k]["h"] for k in K}
    for k, r in enumerate(recs):
        if "runs" not in r:
            o = {"exc": r.get("exc") or "TIMEOUT", "chunks": [], "excess": 0, "module": False, "imports": [], "inline": [], "free": [], "head": True, "patch": []}
            recs[k] = {"runs": jobs[k][0]["runs"], "obs": [dict(o) for _ in jobs[k][0]["runs"]]}
        else:
            recs[k] = finish(r, chunk, hof)
        recs[k]["job"] = k
    rep.traces += sum(len(r["runs"]) for r in recs)
    engine.tlc_finish(mc)
    parts = [recs[a::3] for a in range(3)]
    bads = engine.par(*[lambda c=c: engine.judge("HelperTrace", c, workers=1, heap="3g") for c in parts if c])
    for rec, clause, detail in [b for l in bads for b in l]:
        c, nf = jobs[rec["job"]]
        text = json.dumps(c, sort_keys=True)
        rep.violation(clause + ":" + hashlib.sha1(text.encode()).hexdigest()[:12],
                      {"runs": [{"dir": r["dir"], "files": [render(f) for f in r["files"]]} for r in c["runs"]], "no_format": nf,
                       "expected": detail, "observed": rec["obs"]})
    for c in cs[::max(1, len(cs) // 4)]:
        rep.sample({"dir": c["runs"][0]["dir"], "files": [render(f) for f in c["runs"][0]["files"]]})
