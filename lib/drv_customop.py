"""C25: projects with C++ extensions generated from CustomOp.tla, converted, and the conversions
replayed on the model (CustomOpTrace.tla)."""
import ast, hashlib, json, os, random, shutil, sys, tempfile
import engine, conv
from drv_convert import is_ann, sentinel, strip_ann

NAMES = [["f1.py", "f2.py", "f3.py", "f4.py", "f5.py"], ["f1.py", "f2/__init__.py", "f3/m.py", "f4.py", "f5/k.py"], ["a/f1.py", "a/f2.py", "b/f3.py", "f4.py", "f5.py"]]
STMT = {"call": "y = {0}(v)\n", "nest": "y = torch.abs({0}(v))\n", "ref": "y = {0}\n", "def": "def g(v):\n    return {0}(v)\n", "twice": "y = {0}(v) + {0}(w)\n", "arg": "fn({0}, k=1)\n"}


def module(path):
    m = path[:-3].replace("/", ".")
    return m[:-9] if m.endswith(".__init__") else m


def where(files, c, names):
    for n, f in enumerate(files):
        if any(i["t"] in ("wrap", "plain") and i["c"] == c for i in f):
            return module(names[n])
    return "elsewhere"


def render(files, n, names, style):
    f = files[n]
    head = ["import torch\n"]
    if style % 2:
        head = ["import torch\nfrom torch.autograd import Function\n"]
    base = "Function" if style % 2 else "torch.autograd.Function"
    body = []
    if any(i["t"] == "setup" for i in f):
        head.append("from setuptools import setup\nfrom torch.utils.cpp_extension import BuildExtension, CUDAExtension\n")
    if any(i["t"] == "load" for i in f):
        head.append("from torch.utils.cpp_extension import load\n" if style % 3 else "import torch.utils.cpp_extension\n")
    for k, i in enumerate(f, 1):
        t = i["t"]
        if t == "setup":
            body.append("setup(name='%s', ext_modules=[CUDAExtension('%s', ['a.cu'])]%s)\n" % (i["e"], i["e"], ", cmdclass={'build_ext': BuildExtension}" if i["h"] == "good" else ""))
        elif t == "imp":
            (head if style % 5 else body).append("import %s\n" % (i["e"] if i["e"] == i["l"] else i["e"] + " as " + i["l"]))
        elif t == "load":
            body.append("%s = %s(name='%s', sources=['a.cpp'])\n" % (i["l"], "load" if style % 3 else "torch.utils.cpp_extension.load", i["e"]))
        elif t == "wrap":
            s = "class %s(%s):\n    @staticmethod\n    def forward(ctx, x):\n        return %s.fwd(x)\n" % (i["c"], base, i["l"])
            if i["n"] == 2:
                s += "\n    @staticmethod\n    def backward(ctx, g):\n        h = [%s.bwd(g)]\n        return h\n" % i["l"]
            body.append(s)
        elif t == "plain":
            body.append("class %s(%s):\n    @staticmethod\n    def forward(ctx, x):\n        return x * 2\n" % (i["c"], base))
        elif t == "direct":
            body.append("site_%d()\ny = %s.info(v)\nrest()\n" % (k, i["l"]))
        elif t == "from":
            dot = "." if style % 7 == 1 and "/" not in names[n] else ""
            m = where(files, i["c"], names)
            (head if style % 5 else body).append("from %s%s import %s\n" % (dot, m, i["c"] if i["c"] == i["l"] else i["c"] + " as " + i["l"]))
        elif t == "use":
            body.append("site_%d()\n" % k + STMT[i["h"]].format(i["l"] + ".apply") + "rest()\n")
    return "".join(head + body)


def read(f, text, exts, mods):
    t = conv.parse(text)
    if t is None:
        return {"sites": [["<not python>", False]], "classes": [], "imports": [], "froms": [], "stray": 0}
    marks = {k + 1 for k in conv.marked_lines(text)}
    classes, imports, froms, sites, used = [], set(), set(), {}, set()
    cur = 0
    for st in t.body:
        k = sentinel(st)
        if k is not None:
            cur = k
            sites.setdefault(k, [[], False, False])
            continue
        if isinstance(st, ast.Expr) and ast.unparse(st) == "rest()":
            cur = 0
            continue
        if cur and not isinstance(st, (ast.Import, ast.ImportFrom)):
            lines = set(range(st.lineno, st.end_lineno + 1))
            s = sites[cur]
            s[1] |= bool(lines & marks)
            used |= lines & marks
            s[2] |= any(is_ann(x) for x in ast.walk(st))
            if not is_ann(st):
                s[0].append(st)
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef):
            classes.append(n.name)
        elif isinstance(n, ast.Import):
            imports |= {(a.name, a.asname or a.name) for a in n.names if a.name in exts}
        elif isinstance(n, ast.ImportFrom) and n.module in mods:
            froms |= {(a.name, a.asname or a.name) for a in n.names}
    out = []
    for k, i in enumerate(f, 1):
        if i["t"] not in ("use", "direct"):
            out.append(["", False])
            continue
        s = sites.get(k, [[], False, False])
        txt = "; ".join(ast.unparse(strip_ann(ast.Module([x], []))) for x in s[0])
        if s[1] != s[2]:
            txt += " <%s>" % ("marked, not annotated" if s[1] else "annotated, not marked")
        out.append([txt, s[1] and s[2]])
    return {"sites": out, "classes": sorted(classes), "imports": sorted(imports), "froms": sorted(froms), "stray": len(marks - used)}


def observe(a):
    case, style, nf = a
    files, mode = case["files"], case["mode"]
    names = NAMES[style % len(NAMES)]
    d = tempfile.mkdtemp(prefix="x", dir=engine.WORKDIR)
    cwd = os.getcwd()
    rec = {"files": files, "mode": mode, "exc": "", "ret": [], "seen": [], "unss": [], "listed": True}
    try:
        for n in range(len(files)):
            p = os.path.join(d, "in", names[n])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as g:
                g.write(render(files, n, names, style))
        C = sys.modules["paconvert.converter"]
        os.chdir(d)
        try:
            c = C.Converter(mode=mode, no_format=nf, log_dir=d + "/log", show_unsupport_api=True)
            rec["ret"] = list(c.run(d + "/in", d + "/out"))
            for h in list(getattr(c.logger, "handlers", [])):
                h.close()
                c.logger.removeHandler(h)
        except engine.CaseTimeout:
            raise
        except BaseException as e:
            rec["exc"] = type(e).__name__
        if os.path.exists("unsupport_api_map.xlsx"):
            with open("unsupport_api_map.xlsx") as g:
                rec["unss"] = [[r[0].replace("*", "torch.Tensor", 0), r[-1]] for r in json.load(g)]
        exts = {i["e"] for f in files for i in f if i["e"]}
        mods = {module(x) for x in names} | {"elsewhere"}
        for n, f in enumerate(files):
            p = os.path.join(d, "out", names[n])
            if not os.path.isfile(p):
                rec["seen"].append({"sites": [["<no output>", False]], "classes": [], "imports": [], "froms": [], "stray": 0})
                continue
            with open(p, encoding="utf-8", errors="replace") as g:
                rec["seen"].append(read(f, g.read(), exts, mods))
        return rec
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


ALL = ["setup", "setup0", "imp", "load", "wrap", "plain", "direct", "from", "use"]
HOWS = sorted(STMT)


def ask(**kw):
    d = {"exts": ["ext_a", "ext_b"], "classes": ["Fn1", "Fn2"], "min": 1, "files": 2, "items": 3, "shapes": ALL, "hows": HOWS, "modes": ["default"]}
    d.update(kw)
    return engine.askfile(d)


def gen(**kw):
    r = engine.tlc("GenCustomOp", env=ask(**kw), heap="4g", workers=2)
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def sim(k, n, **kw):
    return engine.simulate("GenCustomOp", n, env=ask(**kw), depth=60, seed=engine.SEED * 100 + k, heap="3g")


def rank(f):
    return sum(1 for x in f["files"] for i in x if i["t"] in ("wrap", "use", "from"))


def check(pid, tier, rep):
    q = tier == "quick"
    engine.load_repo()
    conv.stub_excel()
    mc = engine.tlc_start("CustomOp", "MCCustomOp", workers=2, heap="3g")
    one = {"exts": ["ext_a"], "classes": ["Fn1"]}
    small = ["setup", "imp", "load", "wrap", "from", "use"]
    jobs = engine.par(
        lambda: gen(files=1, items=4, modes=["default", "min"], **one),
        lambda: gen(min=2, files=2, items=4, hows=["call"], shapes=[s for s in small if s != "load"], exts=["load_e"], classes=["Fn1"]),
        lambda: gen(min=2, files=2, items=4, hows=["call"], shapes=[s for s in small if s not in ("imp", "setup")], **one),
        lambda: sim(1, 4000 if q else 60000, min=3, files=3, items=5, **one),
        lambda: sim(2, 4000 if q else 60000, min=3, files=4, items=5, exts=["load_e", "ext_b"], classes=["Fn1", "MyFn1", "Fn1x"]),
        lambda: sim(3, 3000 if q else 40000, min=4, files=5, items=6, modes=["default", "min"]),
        *([] if q else [lambda: gen(min=3, files=3, items=3, hows=["call"], shapes=small, **one)]))
    seen, cases = set(), []
    for k, g in enumerate(jobs):
        g = sorted(g, key=lambda f: hashlib.sha1(json.dumps(f).encode()).hexdigest())
        if k in (3, 4, 5):  # prefer projects in which something happens
            g = [f for f in g if rank(f) >= 3][:1500 if q else 30000]
        elif q:
            g = g[:1500]
        elif len(g) > 60000:
            g = g[:60000]
        for f in g:
            s = json.dumps(f)
            if s not in seen:
                seen.add(s)
                cases.append(f)
    rep.cov["projects"] = len(cases)
    rnd = random.Random(engine.SEED)
    args = [(f, rnd.randrange(210), rnd.random() < 0.8) for f in cases]
    recs = engine.pmap(observe, args, limit=60)
    keep = []
    for k, r in enumerate(recs):
        if "files" not in r:
            r = {"files": cases[k]["files"], "mode": cases[k]["mode"], "exc": "timeout", "ret": [], "seen": [], "unss": [], "listed": False}
        keep.append(dict(r, job=k))
    rep.traces += len(keep)
    for rec, clause, detail in engine.judge("CustomOpTrace", keep, workers=1, heap="4g"):
        case, style, nf = args[rec["job"]]
        f = case["files"]
        names = NAMES[style % len(NAMES)]
        rep.violation(clause + ":" + hashlib.sha1(json.dumps([case, style]).encode()).hexdigest()[:12],
                      {"project": {names[n]: render(f, n, names, style) for n in range(len(f))}, "mode": case["mode"], "no_format": nf, "expected": detail, "observed": {k: v for k, v in rec.items() if k != "files"}})
    for case, style, nf in args[::max(1, len(args) // 4)][:4]:
        f = case["files"]
        rep.sample("\n".join("# %s\n%s" % (NAMES[style % 3][n], render(f, n, NAMES[style % 3], style)) for n in range(len(f))))
    special(rep)
    engine.tlc_finish(mc)


# ------------------------------------------------------------ what the model says of other spellings
SPECIAL = {
    "qualified": ("import torch\nimport f2\nsite_1()\ny = f2.Fn1.apply(v)\nrest()\n", "y = ext_a.custom_op_xxx(v)"),
    "star": ("import torch\nfrom f2 import *\nsite_1()\ny = Fn1.apply(v)\nrest()\n", "y = ext_a.custom_op_xxx(v)"),
    "same-name": ("import torch\nfrom other import Fn1\nsite_1()\ny = Fn1.apply(v)\nrest()\n", "y = Fn1.apply(v)"),
}
PRE = [[{"t": "setup", "e": "ext_a", "l": "", "c": "", "n": 1, "h": "good"}],
       [{"t": "imp", "e": "ext_a", "l": "ext_a", "c": "", "n": 0, "h": ""}, {"t": "wrap", "e": "", "l": "ext_a", "c": "Fn1", "n": 1, "h": ""}]]


def run_special(a):
    name, text = a
    d = tempfile.mkdtemp(prefix="x", dir=engine.WORKDIR)
    try:
        for n in range(2):
            with open(os.path.join(d, "f%d.py" % (n + 1)), "w") as g:
                g.write(render(PRE, n, NAMES[0], 2))
        with open(os.path.join(d, "f3.py"), "w") as g:
            g.write(text)
        C = sys.modules["paconvert.converter"]
        C.Converter(no_format=True, log_dir=d + "/log").run(d, d + "_out")
        with open(d + "_out/f3.py") as g:
            s = read([{"t": "use"}], g.read(), set(), set())["sites"]
        return {"got": s[0][0]}
    except engine.CaseTimeout:
        raise
    except BaseException as e:
        return {"got": "<%s>" % type(e).__name__}
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "_out", ignore_errors=True)


def special(rep):
    ks = sorted(SPECIAL)
    for k, r in zip(ks, engine.pmap(run_special, [(k, SPECIAL[k][0]) for k in ks])):
        rep.traces += 1
        if r.get("got") != SPECIAL[k][1]:
            rep.violation("C25.spelling:" + k, {"file": SPECIAL[k][0], "expected": SPECIAL[k][1], "observed": r.get("got")})
