"""C05, C06: histories of conversions in one process; repetitions in different environments."""
import ast, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
import engine, conv

HELP = {"A": ("torch.set_num_threads(4)", "device_count", "set_num_threads"), "B": ("torch.float_power(x, y)", "", "")}
PLAIN = "import torch\nimport numpy as np\ny = torch.abs(x)\nz = y.view(2, 3)\n"
HA = "import torch\ndef f(x):\n    return torch.set_num_threads(x)\ny = torch.abs(x)\n"
HB = "import torch\ndef g(x, y):\n    return torch.float_power(x, y)\n"
BAD = "import torch\ndef f(:\n  torch.abs(1)\n"
SETUP = "from setuptools import setup\nfrom torch.utils.cpp_extension import BuildExtension, CppExtension\nsetup(name='my_ext', ext_modules=[CppExtension('my_ext', ['a.cpp'])], cmdclass={'build_ext': BuildExtension})\n"
WRAP = "import torch\nimport my_ext\n\nclass MyFunc(torch.autograd.Function):\n    @staticmethod\n    def forward(ctx, x):\n        return my_ext.fwd(x)\n\nclass Other:\n    pass\n"
USE = "import torch\nfrom mod.wrap import MyFunc\ndef h(x):\n    return MyFunc.apply(torch.abs(x))\n"
TMP = "import torch\ntorch.nn.init.kaiming_uniform_(conv.weight)\ny = torch.nn.init.xavier_normal_(w)\nx.split(2)\ntorch.max(a, b, out=c)\nr = torch.std_mean(a, out=d)\n"
ALIAS = "import torch\nmy_add = torch.add\ny = my_add(a, b)\nz = torch.divide(a, b)\nfrom torch import nn as NN\nclass M(NN.Module):\n    def forward(self, x):\n        return NN.functional.relu(x)\n"

# kind -> (files, single?, converter options)
KINDS = {
    "plain": ({"a.py": PLAIN}, True, {}),
    "helpA": ({"a.py": HA}, True, {}),
    "helpB": ({"a.py": HB}, True, {}),
    "dirA": ({"a.py": HA, "b.py": PLAIN}, False, {}),
    "dirAB": ({"a.py": HA, "b.py": HB, "s/c.py": HA, "r/requirements.txt": "torch\n"}, False, {}),
    "dirplain": ({"a.py": PLAIN, "b.py": PLAIN}, False, {}),
    "failhelp": ({"a.py": HB, "b.py": BAD}, False, {}),
    "fail": ({"a.py": BAD}, True, {}),
    "build": ({"setup.py": SETUP}, False, {}),
    "extproj": ({"a_setup.py": SETUP, "mod/wrap.py": WRAP, "z_use.py": USE}, False, {}),
    "wrap": ({"mod/wrap.py": WRAP, "x.py": PLAIN}, False, {}),
    "use": ({"u.py": USE}, True, {}),
    "failext": ({"a_setup.py": SETUP, "mod/wrap.py": WRAP, "z_bad.py": BAD}, False, {}),
    "tmp": ({"a.py": TMP}, True, {}),
    "min": ({"a.py": PLAIN + "torch.nn.functional.cross_entropy(a, b)\ntorch.foo_bar(1)\n"}, True, {"mode": "min"}),
    "mix": ({"a.py": HA + HB + TMP, "b.py": HA}, False, {}),
    "complete": ({"a.py": ALIAS + "\ntorch.foo.bar(1)\n"}, True, {"only_complete": True}),
    "format": ({"a.py": ALIAS}, True, {"no_format": False}),
    "debug": ({"a.py": ALIAS + PLAIN}, True, {"log_level": "DEBUG"}),
    "list": ({"a.py": PLAIN + "torch.foo.bar(1)\ntorch.foo.bar(2)\nx.resize_as_(y, q=1)\n"}, True, {"show_all_api": True, "show_unalign_api": True, "show_unsupport_api": True}),
    "table": ({"a.py": PLAIN, "b.py": "import torch\ntorch.not_an_api(1)\n"}, False, {"log_markdown": True, "calculate_speed": False}),
    "alias": ({"a.py": ALIAS}, True, {}),
    "same": ({"a.py": "import torchvision\nfrom os import path\nm = torchvision.models.resnet18()\nq = path.join('a')\n"}, True, {"same": True}),
    # other programs at the same place
    "same1": ({"a.py": "import torch\nimport torch.nn.functional as F\nfrom torch import nn, abs, float32 as dt\nadd3 = torch.add\nz = F.relu(add3(abs(x), nn.Linear(2, 3).weight, dt))\n"}, True, {"same": True}),
    "same2": ({"a.py": "import torch\nimport other.F as F\nfrom thing import nn, dt\nz = F.relu(add3(abs(x), nn.Linear(2, 3).weight, dt))\ny = torch.sin(z)\n"}, True, {"same": True}),
    "same3": ({"a.py": "import numpy as F\nz = F.relu(add3(abs(x), nn.Linear(2, 3).weight, dt))\nz = nn.Module.abs(torch.sin(z))\n"}, True, {"same": True}),
    "samebad": ({"a.py": "import torch\nfrom torch import nn\ndef f(:\n"}, True, {"same": True}),
    "samemin": ({"a.py": "import torch\nfrom torch import nn, abs\nz = torch.abs(abs(nn.Linear(x)))\nz = torch.foo_bar(torch.divide(z))\n"}, True, {"same": True, "mode": "min"}),
    "samedef": ({"a.py": "import torch\nfrom torch import nn, abs\nz = torch.abs(abs(nn.Linear(x)))\nz = torch.foo_bar(torch.divide(z))\n"}, True, {"same": True}),
    "excl": ({"a.py": PLAIN, "bad.py": BAD}, False, {"exclude": "bad"}),
}


def tree_text(root):
    res = {}
    for b, ds, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(b, f), "rb") as h:
                res[os.path.relpath(os.path.join(b, f), root)] = h.read().decode("utf-8", "replace")
        for x in ds:
            res[os.path.relpath(os.path.join(b, x), root) + "/"] = ""
    return res


def run_kind(kind, where):
    """one conversion; -> (digest of everything observable, abstract effects, exc)"""
    C = sys.modules["paconvert.converter"]
    files, single, opt = KINDS[kind]
    opt = dict(opt)
    exclude = opt.pop("exclude", None)
    if opt.pop("same", False):
        where = os.path.join(os.path.dirname(where), "same")
        shutil.rmtree(where, ignore_errors=True)
    opt.setdefault("no_format", True)
    src = where + "/in"
    for n, t in files.items():
        p = os.path.join(src, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    a = os.path.join(src, list(files)[0]) if single else src
    os.makedirs(where + "/outp", exist_ok=True)
    o = where + "/outp/out.py" if single else where + "/outp/o"
    exc, ret = "", None
    c = None
    cwd = os.getcwd()
    os.chdir(where)
    try:
        c = C.Converter(log_dir=where + "/log", **opt)
        ret = list(c.run(a, o, exclude))
    except Exception as e:
        exc = type(e).__name__
    os.chdir(cwd)
    if c is not None:
        for h in c.logger.handlers[:]:
            h.close()
            c.logger.removeHandler(h)
    out = tree_text(where + "/outp")
    with open(where + "/log", "rb") as f:
        log = f.read().decode("utf-8", "replace")
    def view(t):
        return conv.norm_temps(t.replace(os.path.realpath(where), "@").replace(where, "@"))

    blob = json.dumps([kind, exc, ret, {k: view(v) for k, v in sorted(out.items())}, view(log)], sort_keys=True)
    # abstract effects
    eff = []
    if exc:
        eff.append(["error", ""])
    defs = []
    for n, t in sorted(out.items()):
        try:
            tree = ast.parse(conv.unmark(t))
        except SyntaxError:
            continue
        defs += [x.name for x in tree.body if isinstance(x, ast.FunctionDef)]
    if any("set_num_threads" in d for d in defs):
        eff.append(["defines", "A"])
    if any("exponent" in d for d in defs):
        eff.append(["defines", "B"])
    w = next((t for n, t in out.items() if n.endswith("wrap.py")), None)
    if w is not None:
        eff.append(["wrapper-removed" if "class MyFunc" not in w and "my_ext" not in w and "class Other" in w else "wrapper-kept", "W"])
    u = next((t for n, t in out.items() if n.endswith("use.py") or kind == "use" and n == "out.py"), None)
    if u is not None:
        eff.append(["use-replaced" if "MyFunc" not in u and "my_ext" in u else "use-kept", "W"])
    return hashlib.sha1(blob.encode()).hexdigest(), eff, exc, blob


def in_child(fn, *a):
    """run fn in a forked child (fresh process state), return its JSON result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = json.dumps(fn(*a)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException as e:
            sys.stderr.write("child: %r\n" % e)
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if not data:
        return None
    return json.loads(data)


def _hist(hist, d):
    res = []
    for i, k in enumerate(hist):
        w = os.path.join(d, "r%d" % i)
        os.mkdir(w)
        g, e, x, b = run_kind(k, w)
        res.append({"digest": g, "effects": e, "exc": x, "blob": b})
    return res


def run_hist(hist):
    conv.stub_excel()  # imports pandas once, before the fork
    d = tempfile.mkdtemp(prefix="h", dir=engine.WORKDIR)
    try:
        return in_child(_hist, hist, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------ corpus in different orders
def _order(a):
    items, seed = a
    idx = list(range(len(items)))
    if seed:
        random.Random(seed).shuffle(idx)
    out = [None] * len(items)
    for i in idx:
        r = conv.convert_text(items[i])
        out[i] = hashlib.sha1(json.dumps([r["exc"], r["ret"], conv.norm_temps((r["out"] or "").replace(str(engine.WORKDIR), "@"))]).encode()).hexdigest()
    return out


def run_order(a):
    return in_child(_order, a)


def _one(code):
    r = conv.convert_text(code)
    return r


def check_c05(tier, rep):
    r = engine.tlc("Session", "MCSession", workers=4)
    rep.cov["model"] = "Session.tla: all histories of 3 runs over 14 kinds"
    kinds = sorted(KINDS)
    rnd = random.Random(engine.SEED)
    # all pairs, and histories of three from the specification
    hists = [[a, b] for a in kinds for b in kinds]
    n = 250 if tier == "quick" else 6000
    for c in engine.simulate("GenSession", n, depth=40):
        hists.append(c["hist"])
    base = dict(zip(kinds, engine.pmap(run_hist, [[k] for k in kinds])))
    for k in kinds:
        if not base[k]:
            raise engine.MachineryError("no baseline for " + k)
    res = engine.pmap(run_hist, hists)
    recs = []
    for h, x in zip(hists, res):
        if isinstance(x, dict) or x is None:
            x = [{"digest": "", "effects": [], "exc": "TIMEOUT", "blob": ""}] * len(h)
        recs.append({"hist": h, "runs": [{"digest": y["digest"], "alone": base[k][0]["digest"], "effects": y["effects"], "exc": y["exc"]} for k, y in zip(h, x)]})
    rep.traces += len(recs)
    blobs = {json.dumps(h): x for h, x in zip(hists, res)}
    for rec, clause, detail in engine.judge("SessionTrace", recs):
        x = blobs[json.dumps(rec["hist"])]
        diff = []
        for k, y in zip(rec["hist"], x or []):
            if isinstance(y, dict) and y["digest"] != base[k][0]["digest"]:
                diff.append({"kind": k, "after": y["blob"][:3000], "alone": base[k][0]["blob"][:3000]})
        rep.violation("%s:%s" % (clause, ">".join(rec["hist"])), {"history": rec["hist"], "clause": clause, "runs": rec["runs"], "diff": diff})
    for rec in recs[:3]:
        rep.sample(rec["hist"])
    # corpus in different orders within one process
    items = [c for _, c in engine.load_corpus()]
    if tier == "quick":
        items = [c for i, c in enumerate(items) if i % 3 == engine.SEED % 3]
    nshard = 8
    shards = [items[i::nshard] for i in range(nshard)]
    orders = [0, engine.SEED + 1] if tier == "quick" else [0, engine.SEED + 1, engine.SEED + 2, engine.SEED + 3]
    jobs = [(s, o) for o in orders for s in shards]
    out = engine.pmap(run_order, jobs, chunksize=1, limit=600)
    rr = []
    for si, s in enumerate(shards):
        for i in range(len(s)):
            ans = [{"env": "order%d" % o, "digest": (out[oi * nshard + si] or {}).__getitem__(i) if isinstance(out[oi * nshard + si], list) else "none"} for oi, o in enumerate(orders)]
            rr.append({"item": "%d/%d" % (si, i), "clause": "C05.order-of-conversions", "answers": ans})
    rep.traces += len(rr)
    for rec, clause, detail in engine.judge("Repeat", rr):
        si, i = map(int, rec["item"].split("/"))
        rep.violation(clause + ":" + hashlib.sha1(shards[si][i].encode()).hexdigest()[:12], {"code": shards[si][i]})
    rep.cov["histories"] = len(hists)
    rep.cov["corpus_items"] = len(items)
    rep.cov["corpus_orders"] = len(orders)
    rep.assumptions = ["generated names are compared up to their numbering", "each run has its own Converter"]


# ------------------------------------------------------------------ C06
PKGS = ["torch", "torchvision", "torchaudio", "transformers", "timm", "mmcv", "flash_attn", "os", "setuptools", "einops", "datasets", "kornia"]


def det_items(seed, n):
    """projects: several packages per file, many files, several helpers, extensions"""
    rnd = random.Random(seed)
    items = []
    for j in range(n):
        files = {}
        for k in range(rnd.randint(1, 6)):
            pk = rnd.sample(PKGS, rnd.randint(1, 7))
            body = "".join(rnd.choice(["import %s\n", "import %s as q%d\n" % ("%s", k)]) % p for p in pk)
            body += "import torch\n"
            for u in rnd.sample(["y = torch.abs(x)", "torch.set_num_threads(2)", "z = torch.float_power(x, y)", "torch.nn.functional.softmin(x, 1)", "torch.can_cast(a, b)",
                                 "torch.foo.bar(1)", "x.resize_as_(y, q=1)", "torch.nn.init.kaiming_uniform_(w)", "torchvision.models.zzz()", "transformers.Foo(1)", "torch.std_mean(x, out=y)",
                                 "m.load_state_dict(d)", "a.b.T.cuda()", "x.split(2)", "x.max(1)", "q = x.min(y)", "einops.rearrange(x, 'a b -> b a')", "os.environ['A']", "torch.linalg.lu_solve(a,b,c)"], rnd.randint(2, 9)):
                body += u + "\n"
            d = rnd.choice(["", "p/", "p/q/", "zz/"])
            files["%sf%d.py" % (d, rnd.randint(0, 99))] = body
        if rnd.random() < .4:
            files["setup.py"] = SETUP
            files["mod/wrap.py"] = WRAP
            files["u_use.py"] = USE
        items.append({"files": files, "mode": rnd.choice(["default", "default", "min"]), "no_format": rnd.random() < .6, "show": rnd.random() < .5})
    return items


CHILD = r'''
import sys, os, json, random
sys.dont_write_bytecode = True
sys.path.insert(0, %(lib)r)
import engine, conv, drv_session
spec = json.load(open(sys.argv[1]))
os.setgroups([]) if os.geteuid() == 0 else None
if os.geteuid() == 0:
    os.setgid(65534); os.setuid(65534)
import logging
logging.raiseExceptions = False
os.chdir(spec["work"])
engine.WORKDIR = spec["work"]
engine.load_repo()
json.dump(drv_session.det_child(spec), sys.stdout)
'''


def det_child(spec):
    import logging
    rnd = random.Random(spec["shuffle"])
    real_listdir, real_scandir = os.listdir, os.scandir

    def shuffled(*a):
        x = sorted(real_listdir(*a))
        if spec["shuffle"] == -1:
            return x[::-1]
        rnd.shuffle(x)
        return x

    class Scan:
        def __init__(self, *a):
            with real_scandir(*a) as it:
                x = sorted(it, key=lambda e: e.name)
            rnd.shuffle(x)
            self.it = iter(x)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    C = sys.modules["paconvert.converter"]
    conv.stub_excel()
    res = []
    for n, it in enumerate(spec["items"]):
        if isinstance(it, str):
            it = {"files": {"m.py": it}, "mode": "default", "no_format": True, "show": False, "single": True}
        d = os.path.join(spec["work"], spec["place"], "i%d" % n)
        src, dst = d + "/in", d + "/" + spec["out"]
        names = list(it["files"])
        random.Random(spec["shuffle"]).shuffle(names)
        for f in names:
            p = os.path.join(src, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h:
                h.write(it["files"][f])
        exc, ret, c = "", None, None
        log = d + "/log"
        if it.get("single"):
            src, dst = src + "/m.py", d + "/outd/m.py"
            os.mkdir(d + "/outd")
        if not it.get("single"):
            os.listdir, os.scandir = shuffled, Scan
        try:
            c = C.Converter(log_dir=log, mode=it["mode"], no_format=it["no_format"], show_all_api=it["show"], show_unsupport_api=it["show"])
            ret = list(c.run(src, dst))
        except Exception as e:
            exc = type(e).__name__ + str(e)
        finally:
            os.listdir, os.scandir = real_listdir, real_scandir
        for h in c.logger.handlers[:]:
            h.close()
        out = tree_text(os.path.dirname(dst) if it.get("single") else dst)
        out = {k: v.replace(dst, "@OUT") for k, v in out.items()}
        if spec.get("full"):
            res.append([exc, ret, out])
        else:
            res.append(hashlib.sha1(json.dumps([exc, ret, out], sort_keys=True).encode()).hexdigest())
        shutil.rmtree(d)
    return res


def det_run(items, envs, full=False):
    """every item under every environment, in separate interpreters; -> list per env"""
    jobs = []
    for e in envs:
        nsh = max(1, engine.NPROC // len(envs)) if not full else 1
        for s in range(nsh):
            part = items[s::nsh]
            w = tempfile.mkdtemp(prefix="det_", dir=engine.scratch())
            os.chmod(w, 0o777)
            sp = {"items": part, "work": w, "shuffle": e["shuffle"], "place": e["place"], "out": e["out"], "full": full}
            f = w + ".json"
            with open(f, "w") as h:
                json.dump(sp, h)
            os.chmod(f, 0o644)
            env = dict(os.environ, PYTHONHASHSEED=str(e["seed"]), HOME=w)
            script = w + ".py"
            with open(script, "w") as h:
                h.write(CHILD % {"lib": os.path.join(engine.VERIF, "lib")})
            p = subprocess.Popen([sys.executable, "-W", "ignore", script, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=w)
            jobs.append((e, s, nsh, p))
    outs = {}
    import threading
    results = {}

    def rd(i, p):
        results[i] = p.communicate()

    ths = [threading.Thread(target=rd, args=(i, j[3])) for i, j in enumerate(jobs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    res = [[None] * len(items) for _ in envs]
    for i, (e, s, nsh, p) in enumerate(jobs):
        so, se = results[i]
        if p.returncode:
            raise engine.MachineryError("determinism child failed: " + se.decode()[-1500:])
        for k, v in enumerate(json.loads(so)):
            res[envs.index(e)][s + k * nsh] = v
    return res


def check_c06(tier, rep):
    engine.tlc("Session", "MCSession", workers=4)
    rnd = random.Random(engine.SEED)
    corpus = [c for _, c in engine.load_corpus()]
    step = 5 if tier == "quick" else 1
    items = det_items(engine.SEED, 400 if tier == "quick" else 4000) + corpus[engine.SEED % step::step]
    envs = [{"seed": 0, "shuffle": 0, "place": "a", "out": "o"}, {"seed": 1, "shuffle": -1, "place": "t/b", "out": "zout"},
            {"seed": 4242, "shuffle": 7, "place": "deep/er/pl ace", "out": "o/p"}, {"seed": 77, "shuffle": 3, "place": "x", "out": "Z"}]
    if tier != "quick":
        envs += [{"seed": s, "shuffle": s, "place": "t%d" % s, "out": "o"} for s in (5, 6, 8, 9)]
    res = det_run(items, envs)
    recs = [{"item": str(i), "clause": "C06.differs", "answers": [{"env": "seed%d" % e["seed"], "digest": res[j][i]} for j, e in enumerate(envs)]} for i in range(len(items))]
    rep.traces += len(recs) * len(envs)
    bad = engine.judge("Repeat", recs)
    if bad:
        sub = [items[int(r["item"])] for r, _, _ in bad[:10]]
        full = det_run(sub, envs, full=True)
        for k, (r, clause, _) in enumerate(bad):
            it = items[int(r["item"])]
            key = hashlib.sha1(json.dumps(it, sort_keys=True).encode()).hexdigest()[:12]
            rep.violation(clause + ":" + key, {"item": it, "answers": [full[j][k] for j in range(len(envs))] if k < 10 else None, "envs": envs})
    rep.cov["items"] = len(items)
    rep.cov["environments"] = envs
    rep.sample(items[0])
    rep.assumptions = ["environments: 4 hash seeds, listing orders, places"]


def check(pid, tier, rep):
    {"C05": check_c05, "C06": check_c06}[pid](tier, rep)
