"""C20, C24: command lines and settings generated from Tool.tla, run through the tool (or the
library), and the recorded runs replayed on the model (ToolTrace.tla)."""
import ast, hashlib, json, os, random, re, shutil, signal, sys, time
import engine, conv
from drv_convert import is_ann, sentinel

PK = ("torch", "torchvision", "transformers")
ARGS = ["out", "exclude", "mode", "exclude_packages", "log_dir", "log_level", "show_all_api", "show_unalign_api", "show_unsupport_api", "no_format", "log_markdown", "calculate_speed", "in"]
SHOWN = ["log_dir", "log_level", "show_all_api", "show_unalign_api", "show_unsupport_api", "no_format", "log_markdown", "calculate_speed"]
ALL = ["single", "clean", "plain", "tvonly", "dir", "empty", "many"]
XLSX = {"all_api_map.xlsx": "all", "unalign_api_map.xlsx": "unalign", "unsupport_api_map.xlsx": "unsupport"}
_n = [0]


def newdir():
    """a scratch directory whose name no exclusion pattern matches"""
    _n[0] += 1
    d = os.path.join(engine.WORKDIR, "q%d_%d" % (os.getpid(), _n[0]))
    os.mkdir(d)
    return d


# code that formatting lays out anew and that no presentation may change
PRE = ("t = \"\"\"a   \nb\t\n  torch.abs(x)\"\"\"\nz = fn(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa, 'bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb', cccccccccccccccccccccccccccccc, k={'d': e})\n"
       "if z  ==  (1):\n  import zlib, abc\n  def g( a,b = 1 ):\n    return not a in b\n")


def source(f):
    out = ["import %s\n" % p for p in f["head"]] + [PRE]
    for n, s in enumerate(f["src"], 1):
        out.append("site_%d()\ny = %s\n" % (n, re.sub(r"\bv\b", "v", s)))
    out.append("site_%d()\n" % (len(f["src"]) + 1))
    return "".join(out)


def contents(f):
    if f["head"] == ["copy"]:
        return "torch.abs(x)\n\x00data\n"
    if f["head"] == ["req"]:
        return "torch==2.0\nnumpy\n"
    return source(f)


def write(case, d):
    root = os.path.join(d, "proj")
    for f in case["files"]:
        p = os.path.join(d, "m.py") if case["form"] == "file" else os.path.join(root, f["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as g:
            g.write(contents(f))
    return "m.py" if case["form"] == "file" else "proj"


def places(case):
    f = case["form"] == "file"
    return {"<in>": "m.py" if f else "proj", "<new>": "new.py" if f else "new", "<deep>": "d1/d2/new.py" if f else "d1/d2/new", "<log>": "run.log"}


def subst(s, case):
    for k, v in places(case).items():
        s = s.replace(k, v)
    return s


def where(case, s):
    """path of the single output file or directory, relative to the working directory"""
    if s["out"]:
        return subst(s["out"], case)
    return "paddle_project/m.py" if case["form"] == "file" else "paddle_project"


def child(d, fn):
    """run fn in a child process whose working directory is d; -> (status, stdout, stderr)"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 90
        try:
            signal.alarm(0)
            os.chdir(d)
            o = os.open(d + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            e = os.open(d + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(o, 1)
            os.dup2(e, 2)
            sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
            try:
                fn()
                code = 0
            except SystemExit as x:
                code = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
            except BaseException as x:
                sys.stderr.write("EXC %s %s\n" % (type(x).__name__, str(x)[:200]))
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    t = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t > 40:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = -1
            break
        time.sleep(0.002)
    res = []
    for x in (".out", ".err"):
        with open(d + x, "rb") as f:
            res.append(f.read().decode("utf-8", "replace"))
        os.unlink(d + x)
    return st, res[0], res[1]


def run_cli(case, d):
    import paconvert.main as M
    argv = [subst(a, case) for a in case["written"]]

    def go():
        sys.argv = ["paconvert"] + argv
        M.main()
    return child(d, go)


def settings(case):
    s = case["set"]
    kw = {k: s[k] for k in ("mode", "log_level", "show_all_api", "show_unalign_api", "show_unsupport_api", "no_format", "log_markdown", "calculate_speed")}
    kw["log_dir"] = subst(s["log_dir"], case) or None
    return kw


def run_lib(case, d, log=True):
    C = sys.modules["paconvert.converter"]
    s = case["set"]

    def go():
        kw = settings(case)
        if not log:
            kw["log_dir"] = "x.log"
        ret = C.Converter(**kw).run(subst(s["in"], case), subst(s["out"], case) or None, s["exclude"] or None)
        with open("ret.json", "w") as f:
            json.dump(list(ret), f)
    return child(d, go)


def tree(base):
    out = {}
    for b, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, base)] = g.read()
    return out


# ------------------------------------------------------------ reading a run
def tokens(text, d, case):
    out, levels = [], set()
    root = os.path.join(d, "m.py" if case["form"] == "file" else "proj")
    rel = lambda p: os.path.basename(p) if case["form"] == "file" else os.path.relpath(p, root)
    nums = []
    for l in text.split("\n"):
        m = re.match(r"(Start|Finish) convert(?: file:)? (.*) --> ", l)
        if l.startswith("PyTorch to Paddle Convert Start"):
            out.append("banner")
        elif m:
            out.append(m.group(1).lower() + " " + rel(m.group(2)))
        elif "just Copy" in l:
            out.append("copy " + rel(re.search(r"just Copy (.*) --> ", l).group(1)))
        elif l == "ALL API List:":
            out.append("list all")
        elif l == "UnAlign Native Pytorch API List:":
            out.append("list unalign")
        elif l == "Not Support API List:":
            out.append("list unsupport")
        elif l == "Convert Summary":
            out.append("summary")
        elif l == "# 转换总结":
            out.append("markdown")
        elif "marked by >>>" in l or "已经在行前通过" in l:
            out.append("hint")
        elif l.startswith("The total lines of code is"):
            out.append("speed")
        if re.search(r"^\[[^]]*\] \[(Success|Delete|Unchange)|\] \[Success\]", l):
            levels.add("INFO")
        if re.search(r"\] Start convert .* to Paddle -->", l):
            levels.add("DEBUG")
        m = re.match(r"There are (\d+) Pytorch APIs|总计有 (\d+) 行| (\d+)  Pytorch APIs|\* (\d+) 行", l)
        if m:
            nums.append(int([x for x in m.groups() if x][0]))
    if levels or any(t.split()[0] in ("banner", "start", "copy", "list", "speed") for t in out):
        levels.add("INFO")
    return out, sorted(levels), nums


def read_file(f, data):
    """-> sites, kept, ok"""
    if f["head"] == ["copy"]:
        return [], [], data == contents(f).encode()
    if f["head"] == ["req"]:
        return [], [], data == contents(f).replace("torch", "paddlepaddle-gpu").encode()
    text = data.decode("utf-8", "replace")
    marks = {i + 1 for i in conv.marked_lines(text)}
    t = conv.parse(text)
    if t is None:
        return [["<not python>", False]], [], True
    sites, kept, cur, used, pre = {}, set(), 0, set(), []
    for st in t.body:
        k = sentinel(st)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            kept |= {a.name.split(".")[0] for a in st.names} if isinstance(st, ast.Import) else {(st.module or "").split(".")[0]}
        elif k is not None:
            cur = k
        elif cur == 0:
            pre.append(sorted_imports(st))
        elif not is_ann(st):
            lines = set(range(st.lineno, st.end_lineno + 1))
            txt = ast.unparse(st.value) if isinstance(st, ast.Assign) and [ast.unparse(x) for x in st.targets] == ["y"] else ast.unparse(st)
            sites.setdefault(cur, []).append([txt, bool(lines & marks)])
            used |= lines & marks
    out = []
    for n in range(1, len(f["src"]) + 1):
        l = sites.pop(n, [])
        out.append(l[0] if len(l) == 1 else ["; ".join(x[0] for x in l), any(x[1] for x in l)])
    for l in sites.values():
        out += l
    if marks - used:
        out.append(["<marked line outside>", True])
    return out, sorted(kept & set(PK)), "\n".join(pre) == "\n".join(sorted_imports(st) for st in ast.parse(PRE).body)


def sorted_imports(st):
    lines = ast.unparse(st).split("\n")
    at = [i for i, l in enumerate(lines) if l.strip().startswith("import ")]
    new = sorted("    import " + n.strip() for i in at for n in lines[i].strip()[7:].split(","))
    return "\n".join(lines[:at[0]] + new + lines[at[-1] + 1:]) if at else "\n".join(lines)


def observe(a):
    case, via, focus = a
    d = newdir()
    e = newdir()
    try:
        write(case, d)
        before = set(tree(d))
        st, so, se = (run_cli if via == "cli" else run_lib)(case, d)
        s = case["set"]
        rec = {"proj": case["proj"], "argv": case["argv"], "via": via, "focus": focus, "end": "ok" if st == 0 else "error", "warned": "[Warning] --no_format must be true in min mode" in so,
               "place": True, "files": [], "strange": [], "ret": [], "nums": [], "log": [], "levels": [], "tables": [], "same": True}
        after = tree(d)
        made = {p: b for p, b in after.items() if p not in before}
        made.pop("ret.json", None)
        for n, v in XLSX.items():
            if n in made:
                rec["tables"].append({"name": v, "rows": [[r[0], r[-1]] for r in json.loads(made.pop(n))]})
        logf = subst(s["log_dir"], case)
        if logf and logf != "disable":
            text = made.pop(logf, b"").decode("utf-8", "replace")
        else:
            text = se
        rec["log"], rec["levels"], rec["nums"] = tokens(text, d, case)
        if os.path.exists(d + "/ret.json"):
            rec["ret"] = json.load(open(d + "/ret.json"))
        w = where(case, s)
        for f in case["files"]:
            p = w if case["form"] == "file" else os.path.join(w, f["path"])
            if p in made:
                sites, kept, ok = read_file(f, made.pop(p))
                rec["files"].append({"path": f["path"], "sites": sites, "kept": kept, "ok": ok})
        rec["strange"] = sorted(made)
        rec["place"] = bool(rec["files"]) or not rec["strange"]
        for p in before:  # the input stays
            f = [f for f in case["files"] if p == ("m.py" if case["form"] == "file" else "proj/" + f["path"])][0]
            if after.get(p) != contents(f).encode():
                rec["strange"].append("changed " + p)
        rec["err"] = se[-300:] if rec["end"] == "error" else ""
        if via == "cli" and case["usage"] == "ok" and not s["exclude_packages"]:
            write(case, e)
            keep = set(tree(e))
            run_lib(case, e, log=False)
            lib = {p: b for p, b in tree(e).items() if p not in keep and p not in ("ret.json", "x.log")}
            cli = {p: b for p, b in after.items() if p not in before and p != logf}
            rec["same"] = lib == cli
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(e, ignore_errors=True)


# ------------------------------------------------------------ generation
def ask(via, opts, args, projects, one=False):
    return engine.askfile({"via": via, "opts": opts, "args": args, "projects": projects, "one": one})


def gen(via, opts, args, projects, one=False):
    r = engine.tlc("GenTool", env=ask(via, opts, args, projects, one), heap="3g", workers=2)
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def sim(k, n, opts, args, projects=ALL, one=False):
    return engine.simulate("GenTool", n, env=ask("cli", opts, args, projects, one), depth=60, seed=engine.SEED * 100 + k, heap="3g")


def check(pid, tier, rep):
    q = tier == "quick"
    rnd = random.Random(engine.SEED)
    mc = engine.tlc_start("MCTool", "MCTool" if pid == "C24" else "MCToolLib", workers=2, heap="3g")
    engine.load_repo()
    conv.stub_excel()
    import paconvert.main
    if pid == "C24":
        n = 450 if q else 12000
        one, two, *sims = engine.par(lambda: gen("cli", ARGS, 2, ["single", "dir"] if q else ALL), lambda: gen("cli", ARGS, 3, ["single"] if q else ["single", "dir", "tvonly"], True),
                                lambda: sim(4, n, ARGS, 6, one=True),
                                lambda: sim(1, n, ARGS, 4), lambda: sim(2, n, ARGS, 7), lambda: sim(3, n, [o for o in ARGS if o not in ("mode", "log_level")] + ["in"], 10))
        two = [c for c in two if len(c["argv"]) == 3 and c["argv"][0]["opt"] == "in" and c["usage"] == "ok"]
        cases = [(c, "cli") for g in [one, two] + sims for c in g]
        rep.cov["command_lines"] = {"an option besides the input, every spelling, exhaustive": len(one), "every two options besides the input": len(two), "random": [len(s) for s in sims]}
    else:
        proj = [ALL[engine.SEED % 7], "dir", "single"] if q else ALL
        l = gen("lib", ["mode"] + SHOWN, 12, sorted(set(proj)))
        l = [c for c in l if c["usage"] == "ok"]
        if q:
            # every combination of the presentation settings, on one project and mode each
            by = {}
            for c in l:
                by.setdefault(json.dumps({k: c["set"][k] for k in SHOWN}, sort_keys=True), []).append(c)
            l = [c for k in sorted(by) for c in rnd.sample(by[k], 2)]
        cases = [(c, "lib") for c in l]
        rep.cov["settings"] = len(l)
    jobs = [(c, v, pid) for c, v in cases]
    recs = engine.pmap(observe, jobs, limit=120)
    keep = []
    for k, r in enumerate(recs):
        if "files" not in r:
            r = {"proj": jobs[k][0]["proj"], "argv": jobs[k][0]["argv"], "via": jobs[k][1], "focus": pid, "end": "error", "warned": False, "place": True, "files": [], "strange": ["timeout"],
                 "ret": [], "nums": [], "log": [], "levels": [], "tables": [], "same": True, "err": "timeout"}
        keep.append(dict(r, job=k))
    rep.traces += len(keep)
    bads = []
    for via in sorted({v for _, v in cases}):
        part = [r for r in keep if r["via"] == via]
        bads += engine.judge("ToolTrace", part, cfg="ToolTraceCli" if via == "cli" else "ToolTraceLib", workers=1, heap="4g")
    for rec, clause, detail in bads:
        c, via, _ = jobs[rec["job"]]
        key = clause + ":" + hashlib.sha1(json.dumps([c["proj"], c["written"] if via == "cli" else c["set"]], sort_keys=True).encode()).hexdigest()[:12]
        rep.violation(key, {"command": " ".join(c["written"]) if via == "cli" else "", "settings": c["set"], "project": c["proj"],
                            "files": {f["path"]: contents(f) for f in c["files"]}, "expected": detail, "observed": {k: v for k, v in rec.items() if k not in ("argv",)}})
    for c, v in cases[::max(1, len(cases) // 4)][:4]:
        rep.sample(" ".join(c["written"]) if v == "cli" else json.dumps(c["set"]))
    if pid == "C20":
        printing(tier, rep)
    engine.tlc_finish(mc)


# ------------------------------------------------------------ C20 over larger programs
def view(out):
    """what presentation must not change: the tree and the statements that carry marks"""
    import drv_grammar as G
    t = conv.parse(out)
    if t is None:
        return None
    for n in ast.walk(t):
        if isinstance(n, ast.Constant):
            n.kind = None
        elif isinstance(n, ast.Delete):  # del (a, b) deletes what del a, b does
            while any(isinstance(x, (ast.Tuple, ast.List)) for x in n.targets):
                n.targets = [y for x in n.targets for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]
    marks = {i + 1 for i in conv.marked_lines(out)}
    got = []
    body = []

    def walk(stmts):
        for st in stmts:
            kids = [k for f in ("body", "orelse", "finalbody", "handlers", "cases") for k in getattr(st, f, []) or []] if not isinstance(st, ast.Lambda) else []
            if isinstance(st, (ast.stmt, ast.ExceptHandler)) or st.__class__.__name__ == "match_case":
                hi = max([x.end_lineno for x in ast.walk(st) if hasattr(x, "end_lineno")])
                lo = min([x.lineno for x in ast.walk(st) if hasattr(x, "lineno")])
                inner = set()
                for k in kids:
                    xs = [x for x in ast.walk(k) if hasattr(x, "end_lineno")]
                    if xs:
                        inner |= set(range(min(x.lineno for x in xs), max(x.end_lineno for x in xs) + 1))
                if (set(range(lo, hi + 1)) - inner) & marks:
                    got.append(fingerprint(st))
            walk(kids)

    def fingerprint(st):
        head = {k: v for k, v in ast.iter_fields(st) if k not in ("body", "orelse", "finalbody", "handlers", "cases", "kind")}
        return type(st).__name__ + " ".join(ast.dump(x) if isinstance(x, ast.AST) else ",".join(ast.dump(y) if isinstance(y, ast.AST) else repr(y) for y in x) if isinstance(x, list) else repr(x) for x in head.values())
    walk(t.body)
    return [hashlib.sha1(conv.norm_temps("\n".join(sorted(got))).encode("utf-8", "surrogatepass")).hexdigest(), hashlib.sha1(conv.norm_temps(G.canon_dump(t)).encode("utf-8", "surrogatepass")).hexdigest()]


VARIANTS = [{"no_format": False}, {"no_format": False, "log_level": "DEBUG"}, {"no_format": True, "log_level": "DEBUG"}, {"no_format": True, "log_level": "WARNING", "show_all_api": True, "show_unsupport_api": True},
            {"no_format": False, "log_markdown": True, "calculate_speed": True, "show_unalign_api": True}]


def observe_print(a):
    code, mode, k = a
    base = conv.convert_text(code, mode=mode, no_format=True)
    kw = dict(VARIANTS[k])
    nf = kw.pop("no_format")
    r = conv.convert_text(code, mode=mode, no_format=nf, **kw)
    z = lambda x: {"exc": x["exc"], "ret": x["ret"] or [-1, -1], "view": (view(x["out"]) if x["out"] is not None else None) or ["", ""]}
    return {"a": z(base), "b": z(r)}


def printing(tier, rep):
    import drv_convert as D, drv_grammar as G
    q = tier == "quick"
    jobs = []
    res = engine.par(lambda: engine.simulate("GenConvert", 250 if q else 6000, env=D.ask(sites=4, depth=4, modes=["default", "min"]), depth=120, seed=engine.SEED * 100 + 77),
                     lambda: G.gen(), lambda: G.gen(top="E"), lambda: G.sim(31, 500 if q else 12000, spine=False, depth=4))
    for n, c in enumerate(res[0]):
        jobs.append((D.HEADS[n % 3] + D.build(c), c["mode"], n % len(VARIANTS)))
    for g in res[1:]:
        for n, c in enumerate(g):
            if q and n % 6 != engine.SEED % 6:
                continue
            s = c["src"] if c["src"].endswith("\n") else "x = " + c["src"] + "\n"
            jobs.append(("import torch\n" + G.layout(s), "min" if n % 5 == 2 else "default", n % len(VARIANTS)))
    for n, (name, code) in enumerate(engine.load_corpus()):
        if not q or n % 6 == engine.SEED % 6:
            jobs.append((code, "default", n % len(VARIANTS)))
    recs = engine.pmap(observe_print, jobs, limit=60)
    keep = []
    for k, r in enumerate(recs):
        if "a" in r:
            keep.append(dict(r, job=k))
    rep.cov["programs_printed"] = len(keep)
    rep.traces += len(keep)
    for rec, clause, detail in engine.judge("PrintTrace", keep, workers=1, heap="3g"):
        code, mode, k = jobs[rec["job"]]
        rep.violation(clause + ":" + hashlib.sha1(code.encode("utf-8", "surrogatepass")).hexdigest()[:12], {"program": code, "mode": mode, "settings": VARIANTS[k], "observed": {"plain": rec["a"], "presented": rec["b"]}})
