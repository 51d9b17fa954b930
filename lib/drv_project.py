"""C01-C04: replay of Project.tla scenarios into the real converter on scratch trees."""
import ast, hashlib, os, shutil, stat, sys, tempfile, zlib
import engine, conv

PARENT = {1: 0, 2: 0, 3: 0, 4: 3, 5: 3, 6: 5}
DIRS = {"dir", "hdir", "pycache", "dirlink", "dirpy", "edir"}

PY = "import torch\nimport numpy as np\n\n\ndef f%d(x):\n    y = torch.abs(x)\n    return torch.add(y, %d)\n"
CONTENT = {
    "py": lambda s: (PY % (s, s)).encode(),
    "hpy": lambda s: (PY % (s, s)).encode(),
    "pyplain": lambda s: ("'''doc %d é'''\nimport json\nx = {%d: json.dumps([1, 2])}\n" % (s, s)).encode(),
    "pyempty": lambda s: b"",
    "pycrlf": lambda s: (PY % (s, s)).replace("\n", "\r\n").encode(),
    "pylink": lambda s: (PY % (s, s + 100)).encode(),
    "pyhelp": lambda s: ("import torch\ntorch.set_num_threads(%d)\ny = torch.abs(z%d)\n" % (s, s)).encode(),
    "pybad": lambda s: b"import torch\ndef f(:\n    return torch.abs(1)\n",
    "pyenc": lambda s: b"import torch\nx = torch.abs('\xff\xfe')\n",
    "pynul": lambda s: (PY % (s, s)).encode() + b"z = 'a\x00b'\n",
    "pycook": lambda s: b"# -*- coding: no-such-codec -*-\n" + (PY % (s, s)).encode(),
    "pydeep": lambda s: (PY % (s, s)).encode() + b"z = " + b"1 + " * 30000 + b"1\n",
    "reqbad": lambda s: b"numpy\ntorch==1.%d  # \xff\xfe\n" % s,
    "pynoread": lambda s: (PY % (s, s)).encode(),
    "req": lambda s: ("torch==2.%d\nnumpy\ntorchvision>=0.1  # torch\n" % s).encode(),
    "devreq": lambda s: ("-r x\npytorch\ntorch;%d\n\n" % s).encode(),
    "req2": lambda s: ("torch==1.%d\r\n" % s).encode(),
    "bin": lambda s: bytes(range(256)) * {1: 3, 2: 300, 3: 20, 4: 33, 5: 4200, 6: 1}[s] + b"torch\r\n" + bytes([s]),
    "hbin": lambda s: bytes(range(255, -1, -1)) + bytes([s]),
    "binnoread": lambda s: b"torch" + bytes([s]),
    "upper": lambda s: (PY % (s, s)).encode() + b"\r\n",
    "pyc": lambda s: b"\x00\xff import torch" + bytes([s]),
    "text": lambda s: ("import torch\r\ntorch.abs(%d)\rxé" % s * (1 if s % 2 else 900)).encode("latin-1"),
    "empty": lambda s: b"",
    "binlink": lambda s: b"\x89torch\r\n" + bytes([s]),
    "dang": lambda s: b"",
}


def name(kind, s):
    t = "N%dx" % s
    return {
        "py": t + "Mod.py", "hpy": "." + t + "Hid.py", "pyplain": t + "Plain.py", "pyempty": t + "Emp.py", "pycrlf": t + "Crlf.py",
        "pylink": t + "Lnk.py", "pyhelp": t + "Help.py", "pybad": t + "Bad.py", "pyenc": t + "Enc.py", "pynoread": t + "Nor.py",
        "pynul": t + "Nul.py", "pycook": t + "Cook.py", "pydeep": t + "Deep.py", "reqbad": t + "bad-requirements.txt",
        "req": t + "requirements.txt", "devreq": t + "-dev-requirements.txt", "req2": t + "requirements.txt.bak", "bin": t + "Data.bin",
        "hbin": "." + t + "Data.bin", "binnoread": t + "NorD.bin", "upper": t + "Up.PY", "pyc": t + "C.pyc", "text": t + "read me é.rst",
        "empty": t + "Nothing", "binlink": t + "LnkD.bin", "dang": t + "Dang.py",
        "dir": t + "Dir", "hdir": "." + t + "Dir", "pycache": t + "__pycache__", "dirlink": t + "LnkDir", "dirpy": t + "Pkg.py", "edir": t + "EDir",
    }[kind]


def slot_paths(tree):
    """slot -> relative path (only slots that exist)"""
    res = {}
    for s in range(1, 7):
        k = tree[s - 1]
        if k == "none":
            continue
        par = PARENT[s]
        if par:
            if par not in res or tree[par - 1] not in DIRS or tree[par - 1] == "edir":
                continue
            res[s] = os.path.join(res[par], name(k, s))
        else:
            res[s] = name(k, s)
    return res


def build(root, ext, tree):
    """materialise the tree below root; links point into ext"""
    paths = slot_paths(tree)
    real = {0: root}
    for s in sorted(paths):
        k = tree[s - 1]
        p = os.path.join(real[PARENT[s]], name(k, s))
        if k in DIRS:
            if k == "dirlink":
                t = os.path.join(ext, "linked%d" % s)
                os.makedirs(t)
                os.symlink(t, p)
                real[s] = t
            else:
                os.mkdir(p)
                real[s] = p
        elif k in ("pylink", "binlink"):
            t = os.path.join(ext, "target%d" % s)
            with open(t, "wb") as f:
                f.write(CONTENT[k](s))
            os.symlink(t, p)
        elif k == "dang":
            os.symlink(os.path.join(ext, "nowhere"), p)
        else:
            with open(p, "wb") as f:
                f.write(CONTENT[k](s))
            os.chmod(p, 0o000 if k in ("pynoread", "binnoread") else 0o755 if s % 2 else 0o644)
    return paths


def snapshot(root):
    snap = {}
    for base, dirs, files in os.walk(root, followlinks=False):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                c = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                c = ("dir",)
            else:
                try:
                    with open(p, "rb") as f:
                        c = ("file", hashlib.sha1(f.read()).hexdigest())
                except PermissionError:
                    c = ("unreadable", st.st_size)
            snap[os.path.relpath(p, root)] = (c, stat.S_IMODE(st.st_mode), st.st_mtime_ns if c[0] != "dir" else 0, st.st_ino)
    return snap


# ------------------------------------------------------------------ audit
_log = None
_hooked = False
MUT = {"os.mkdir": "mkdir", "os.rmdir": "remove", "os.remove": "remove", "os.rename": "rename", "os.link": "link", "os.symlink": "link",
       "os.chmod": "chmod", "os.chown": "chmod", "os.truncate": "write", "os.utime": "other", "shutil.rmtree": "remove", "shutil.move": "rename",
       "subprocess.Popen": "other", "os.system": "other", "os.exec": "other", "os.mkfifo": "other"}


def _hook(event, args):
    if _log is None:
        return
    try:
        if event == "open":
            path, mode, flags = args
            if isinstance(path, (str, bytes, os.PathLike)):
                path = os.fsdecode(path)
                w = isinstance(flags, int) and bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
                _log.append(("write" if w else "read", os.path.abspath(path)))
        elif event in MUT:
            _log.append((MUT[event], os.path.abspath(os.fsdecode(args[0])) if args and isinstance(args[0], (str, bytes, os.PathLike)) else "?"))
            if event in ("os.rename", "os.link", "shutil.move") and isinstance(args[1], (str, bytes, os.PathLike)):
                _log.append((MUT[event], os.path.abspath(os.fsdecode(args[1]))))
    except Exception:
        pass


def audit_start():
    global _log, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    _log = []


def audit_stop():
    global _log
    l, _log = _log, None
    return l


_single = {}


def single_conv(content, no_format):
    """the same text converted alone"""
    k = (content, no_format)
    if k not in _single:
        _single[k] = conv.convert_text(content, no_format=no_format)
    return _single[k]


def no_helper_view(text):
    """program without helper definitions and helper imports"""
    t = ast.parse(conv.unmark(text))
    body = []
    for st in t.body:
        if isinstance(st, (ast.FunctionDef, ast.Import, ast.ImportFrom)) and "f" != getattr(st, "name", "f")[0]:
            continue
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            continue
        if isinstance(st, ast.Expr) and "sys.path" in ast.unparse(st):
            continue
        if isinstance(st, ast.FunctionDef) and st.name.startswith("_"):
            continue
        body.append(ast.unparse(st))
    return body


def py_ok(kind, s, raw, no_format, single):
    """does this output of slot s carry the complete, correct conversion?"""
    try:
        text = raw.decode("utf-8")
        ast.parse(conv.unmark(text))
    except (UnicodeDecodeError, SyntaxError, ValueError):
        return False
    src = CONTENT[kind](s)
    alone = single_conv(src, no_format)
    if alone["exc"] or alone["out"] is None:
        return False
    if kind == "pyhelp":
        if "torch.set_num_threads(" in text or "paddle.abs(z%d)" % s not in text:
            return False
        if not single and "paddle_utils" not in text:
            return False
        return no_helper_view(text) == no_helper_view(alone["out"])
    if text != alone["out"]:
        return False
    if kind in ("py", "hpy", "pycrlf", "pylink"):
        return "torch" not in text.replace("paddle", "") and "paddle.abs(x)" in text and "paddle.add(y, %d)" % (s + 100 if kind == "pylink" else s) in text
    if kind == "pyplain":
        return ast.dump(ast.parse(text)) == ast.dump(ast.parse(src.decode()))
    if kind == "pyempty":
        return text.strip() == ""
    return True


def run_case(case):
    C = sys.modules["paconvert.converter"]
    tree, pat, place = case["tree"], case["pat"], case["place"]
    d = tempfile.mkdtemp(prefix="p", dir=engine.WORKDIR)
    cwd0 = os.getcwd()
    try:
        return _case(C, d, tree, pat, place, case)
    finally:
        os.chdir(cwd0)
        for b, ds, fs in os.walk(d):
            for x in ds + fs:
                p = os.path.join(b, x)
                if not os.path.islink(p):
                    os.chmod(p, 0o700)
        shutil.rmtree(d, ignore_errors=True)


def _case(C, d, tree, pat, place, case):
    # hold: everything the run may touch or must not touch
    top = os.path.join(d, "top")
    ext = os.path.join(d, "ext")
    proj = os.path.join(top, "Proj")
    os.makedirs(proj)
    os.makedirs(ext)
    paths = build(proj, ext, tree)
    crc = zlib.crc32(repr((tree, pat, place)).encode())
    no_format = crc % 3 != 0
    single = place.startswith("f:")
    cwd = top
    log = os.path.join(d, "log.txt")
    if single:
        src = os.path.join(proj, paths[1])
        base = os.path.basename(src)
        if place == "f:new":
            dst = outf = os.path.join(d, "o", "x_" + base)
            os.mkdir(os.path.dirname(dst))
        elif place == "f:deep":
            dst = outf = os.path.join(d, "o", "p", "q", base)
        elif place == "f:dir":
            dst = os.path.join(d, "o")
            os.mkdir(dst)
            outf = os.path.join(dst, base)
        elif place == "f:over":
            dst = outf = os.path.join(d, "o", base)
            os.mkdir(os.path.dirname(dst))
        elif place == "f:self":
            dst, outf = src, None
        elif place == "f:selfdir":
            dst, outf = os.path.dirname(src), None
        elif place == "f:selflink":
            dst, outf = os.path.join(d, "slink.py"), None
            os.symlink(src, dst)
        elif place == "f:below":
            dst, outf = os.path.join(src, "y.py"), None
        outroot = os.path.join(d, "o")
    else:
        src = proj
        outf = None
        outroot = os.path.join(d, "o")
        if place == "fresh":
            outroot = os.path.join(d, "o", "deep")
        elif place == "empty":
            os.mkdir(outroot)
        elif place == "stale":
            os.mkdir(outroot)
        elif place == "inside":
            outroot = os.path.join(proj, "Out")
        elif place == "default":
            cwd = os.path.join(d, "cwd")
            os.mkdir(cwd)
            outroot = os.path.join(cwd, "paddle_project")
        elif place == "defaultin":
            cwd = proj
            outroot = os.path.join(proj, "paddle_project")
        elif place == "inlink":
            src = os.path.join(d, "L")
            os.symlink(proj, src)
            src = src + "/../L" if False else src
        elif place == "insidelink":
            src = os.path.join(d, "L")
            os.symlink(proj, src)
            outroot = os.path.join(proj, "Out")
        elif place == "rel":
            src, cwd = "Proj/", top
        elif place == "dots":
            src, cwd = "./Proj/../Proj/.", top
        elif place == "self":
            outroot = proj
        elif place == "selflink":
            outroot = os.path.join(d, "L")
            os.symlink(proj, outroot)
        dst = None if place in ("default", "defaultin") else outroot
        if place == "rel":
            dst = os.path.relpath(outroot, cwd)
    if place == "blocked" and 1 in paths:
        os.makedirs(os.path.join(outroot, paths[1]))
    stale = {}
    old1 = place in ("stale", "f:over") and 1 in paths and tree[0] not in DIRS and tree[0] != "dang"
    if place == "stale":
        os.mkdir(os.path.join(outroot, "N9xOld"))
        stale = {"Old.txt": b"unrelated torch\r\n", "N9xOld/k.py": b"import torch\ntorch.abs(1)\n"}
        for k, v in stale.items():
            with open(os.path.join(outroot, k), "wb") as f:
                f.write(v)
    if old1:
        with open(os.path.join(outroot, paths[1]) if not single else outf, "wb") as f:
            f.write(b"older output\n" * 50)
    # -------------------------------------------------- run
    before = snapshot(top)
    before_ext = snapshot(ext)
    os.chdir(cwd)
    crash = ""
    err = False
    etype = ""
    c = None
    audit_start()
    try:
        c = C.Converter(log_dir=log, no_format=no_format)
        c.run(src, dst, None if pat == "none" else pat)
    except engine.CaseTimeout:
        audit_stop()
        return {"scn": case, "crash": "TIMEOUT", "err": True, "ops": [], "indiff": [], "shared": False, "outs": [], "stalekept": True, "nextok": True}
    except Exception as e:
        err, etype = True, type(e).__name__ + ": " + str(e)[:120]
    finally:
        ops = audit_stop()
        if c is not None:
            for h in c.logger.handlers[:]:
                h.close()
                c.logger.removeHandler(h)
    os.chdir(engine.WORKDIR)
    # -------------------------------------------------- observe
    after = snapshot(top)
    after_ext = snapshot(ext)
    inner = os.path.relpath(outroot, top) if outroot.startswith(proj + "/") else None

    def own(p):
        return inner is not None and (p == inner or p.startswith(inner + "/"))

    indiff = sorted({p for p in set(before) | set(after) if not own(p) and before.get(p) != after.get(p)}
                    | {"ext/" + p for p in set(before_ext) | set(after_ext) if before_ext.get(p) != after_ext.get(p)})
    back = {}
    for s, p in paths.items():
        chain, x = [], s
        while x:
            chain.insert(0, x)
            x = PARENT[x]
        back[p] = chain
    out_real = os.path.realpath(outroot)
    proj_real = os.path.realpath(proj)
    ext_real = os.path.realpath(ext)

    oplist = []
    for op, p in ops:
        dn, bn = os.path.split(p)
        rp = os.path.join(os.path.realpath(dn), bn)
        if rp == log or p == log:
            continue
        refused = place in ("self", "selflink") or place.startswith("f:self") or place == "f:below"
        if not refused and (rp == out_real or rp.startswith(out_real + "/")):
            area, path = "out", []
        elif rp == proj_real or rp.startswith(proj_real + "/"):
            area = "in"
            path = back.get(os.path.relpath(rp, proj_real), [])
        else:
            area, path = "ext", []
            # below a linked directory
            for s, q in paths.items():
                if tree[s - 1] == "dirlink" and (rp + "/").startswith(os.path.join(ext_real, "linked%d" % s) + "/"):
                    area = "in"
                    path = back.get(os.path.join(q, os.path.relpath(rp, os.path.join(ext_real, "linked%d" % s))), [])
            if rp == os.path.dirname(out_real) or out_real.startswith(rp + "/"):
                area = "outparent"
        if area in ("in", "ext") and not (area == "ext" and op == "read"):
            o = {"op": op, "area": area, "path": path}
            if o not in oplist:
                oplist.append(o)
        elif area == "outparent" and op not in ("read", "mkdir", "write"):
            oplist.append({"op": op, "area": "ext", "path": []})
    outs, stalekept, shared = [], True, False
    ino = {v[3] for p, v in before.items() if v[0][0] != "dir"} | {v[3] for p, v in before_ext.items() if v[0][0] != "dir"}

    def classify(s, rel, full):
        k = tree[s - 1]
        st = os.lstat(full)
        if stat.S_ISLNK(st.st_mode):
            return "symlink"
        if stat.S_ISDIR(st.st_mode):
            return "block" if place == "blocked" and s == 1 else "dir"
        with open(full, "rb") as f:
            raw = f.read()
        if old1 and s == 1 and raw == b"older output\n" * 50:
            return "old"
        srcb = CONTENT[k](s) if k in CONTENT else None
        if k.startswith("py") and k != "pyc" and k != "pycache" or k == "hpy":
            return "conv" if py_ok(k, s, raw, no_format, single) else "damaged"
        if k in ("req", "devreq", "reqbad"):
            return "req" if raw == srcb.replace(b"torch", b"paddlepaddle-gpu") else "damaged"
        return "copy" if raw == srcb else "damaged"

    if place in ("self", "selflink") or place.startswith("f:self") or place == "f:below":
        pass
    elif single:
        found = []
        for b, ds, fs in os.walk(outroot):
            found += [os.path.join(b, f) for f in fs]
        for f in found:
            if os.lstat(f).st_ino in ino or os.path.islink(f):
                shared = True
            outs.append({"path": [1] if f == outf else [0], "what": classify(1, None, f)})
    elif os.path.isdir(outroot):
        for b, ds, fs in os.walk(outroot):
            for n in ds + fs:
                full = os.path.join(b, n)
                rel = os.path.relpath(full, outroot)
                if place == "stale" and rel.split("/")[0] in ("Old.txt", "N9xOld"):
                    continue
                if os.lstat(full).st_ino in ino:
                    shared = True
                if rel in back:
                    s = back[rel][-1]
                    outs.append({"path": back[rel], "what": classify(s, rel, full)})
                elif rel == "paddle_utils.py":
                    with open(full, encoding="utf-8") as f:
                        t = f.read()
                    try:
                        ok = len([x for x in ast.parse(t).body if isinstance(x, ast.FunctionDef)]) == 1
                    except SyntaxError:
                        ok = False
                    outs.append({"path": [], "what": "helper" if ok else "damaged"})
                else:
                    outs.append({"path": [0], "what": "extra:" + rel})
    for k, v in stale.items():
        p = os.path.join(outroot, k)
        if not os.path.isfile(p) or open(p, "rb").read() != v:
            stalekept = False
    # a later, unrelated conversion in the same process
    nextok = True
    if err or crc % 10 == 0:
        r = conv.convert_text("import torch\ny = torch.abs(x)\nz = x.add(y)\n")
        nextok = r["exc"] == "" and r["ret"] == [2, 0] and r["out"] is not None and r["out"].split("\n")[:3] == ["import paddle", "y = paddle.abs(x)", "z = x.add(y)"]
    return {"scn": case, "crash": crash, "err": err, "etype": etype, "ops": oplist, "indiff": indiff, "shared": shared, "outs": outs,
            "stalekept": stalekept, "nextok": nextok}


NUM = {"quick": 2500, "thorough": 40000}


def check(pid, tier, rep):
    engine.tlc("Project", "MCProject", workers=8)
    focus = {"C02": "C01"}.get(pid, pid)
    cases = engine.simulate("GenProject", NUM[tier], env={"FOCUS": focus}, seed=engine.SEED * 10 + int(pid[1:]))
    recs = engine.pmap(run_case, cases)
    bad = engine.judge("ProjectTrace", recs)
    rep.traces = len(recs)
    rep.cov["scenarios"] = len(cases)
    rep.cov["file_operations_observed"] = sum(len(r["ops"]) for r in recs)
    rep.cov["places"] = {p: sum(1 for c in cases if c["place"] == p) for p in sorted({c["place"] for c in cases})}
    rep.cov["error_runs"] = sum(1 for r in recs if r["err"])
    for r in recs[:4]:
        rep.sample(r)
    for r, clause, detail in bad:
        if clause.startswith(pid):
            rep.violation("%s %s" % (clause, "/".join(r["scn"]["tree"]) + "|" + r["scn"]["pat"] + "|" + r["scn"]["place"]), {"record": r, "clause": clause, "specified": detail})
    rep.cov["other_clauses"] = sorted({c for _, c, _ in bad if not c.startswith(pid)})
