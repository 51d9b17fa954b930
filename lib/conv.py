"""Driving the real converter and observing it through its public surface:
output files, return value, printed summary, raised errors."""
import ast, json, os, re, shutil, sys, tempfile
import engine

MARK = ">>>>>>"


def unmark(text):
    return "\n".join(l[len(MARK):] if l.startswith(MARK) else l for l in text.split("\n"))


def marked_lines(text):
    return [i for i, l in enumerate(text.split("\n")) if l.startswith(MARK)]


def convert_text(code, mode="default", no_format=True, name="m.py", siblings=None, fresh_dir=True, keep=False, **kw):
    """Convert one file given as text (or bytes); -> dict(exc, out, ret, log)"""
    C = sys.modules["paconvert.converter"]
    d = tempfile.mkdtemp(prefix="c", dir=engine.WORKDIR)
    try:
        os.mkdir(d + "/in")
        p = d + "/in/" + name
        with open(p, "wb") as f:
            f.write(code if isinstance(code, bytes) else code.encode("utf-8"))
        for s, t in (siblings or {}).items():
            q = d + "/in/" + s
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(t.encode("utf-8"))
        return _run(C, d, p, d + "/out.py", mode, no_format, kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(C, d, src, dst, mode, no_format, kw):
    out = {"exc": "", "out": None, "ret": None}
    log = d + "/log"
    kw = dict(kw)
    exclude = kw.pop("exclude", None)
    want_log = kw.pop("want_log", False)
    want_tables = kw.pop("want_tables", False)
    conv = None
    cwd = os.getcwd()
    os.chdir(d)
    try:
        conv = C.Converter(mode=mode, no_format=no_format, log_dir=log, **kw)
        ret = conv.run(src, dst, exclude)
        out["ret"] = list(ret)
    except engine.CaseTimeout:
        raise
    except BaseException as e:
        out["exc"] = type(e).__name__
        out["msg"] = str(e)[:200]
    finally:
        os.chdir(cwd)
        if getattr(conv, "logger", None) is not None:
            for h in list(getattr(conv.logger, "handlers", [])):
                h.close()
                conv.logger.removeHandler(h)
    if os.path.isfile(dst):
        with open(dst, "rb") as f:
            raw = f.read()
        try:
            out["out"] = raw.decode("utf-8")
        except UnicodeDecodeError:
            out["out"] = raw.decode("utf-8", "replace")
            out["exc"] = out["exc"] or "OutputNotUtf8"
    if want_log and os.path.isfile(log):
        with open(log, "rb") as f:
            out["log"] = f.read().decode("utf-8", "replace")
    if want_tables:
        out["tables"] = {}
        for n in os.listdir(d):
            if n.endswith(".xlsx"):
                with open(os.path.join(d, n)) as f:
                    out["tables"][n] = json.load(f)
    return out


def stub_excel():
    """to_excel needs openpyxl, which is not installed here: keep the table in memory"""
    import pandas

    def to_excel(self, name, *a, **k):
        with open(str(name), "w") as f:
            json.dump([list(r) for r in self.values.tolist()], f, default=str)

    pandas.DataFrame.to_excel = to_excel


def parse(text):
    try:
        return ast.parse(unmark(text))
    except (SyntaxError, ValueError):
        return None


def dump(text_or_tree):
    t = ast.parse(unmark(text_or_tree)) if isinstance(text_or_tree, str) else text_or_tree
    return ast.dump(t)


def norm_temps(text):
    """number generated temporaries (out_3, init_KaimingUniform, ...) by first appearance"""
    seen = {}

    def f(m):
        k = m.group(0)
        if k not in seen:
            seen[k] = "%s_#%d" % (m.group(1), len([x for x in seen if x.startswith(m.group(1) + "_")]))
        return seen[k]

    return re.sub(r"\b([A-Za-z_]\w*?)_(\d+)\b", f, text)


# ---------------------------------------------------------------- AST views
def split_imports(tree):
    """remove import statements from the tree; -> (sorted list of bindings, tree)"""
    binds = set()

    class T(ast.NodeTransformer):
        def visit_Import(self, n):
            for a in n.names:
                binds.add(("import", a.name, a.asname or ""))
            return None

        def visit_ImportFrom(self, n):
            for a in n.names:
                binds.add(("from", "." * n.level + (n.module or "") + ":" + a.name, a.asname or ""))
            return None

    tree = T().visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Module):
            continue
        if getattr(n, "body", None) == []:
            n.body.append(ast.Pass())
        if isinstance(n, ast.Try) and not n.handlers and not n.finalbody:
            n.finalbody.append(ast.Pass())
    return sorted(binds), tree


def squeeze_docstrings(tree):
    """formatting re-indents docstrings: compare them by their words"""
    for n in ast.walk(tree):
        for st in getattr(n, "body", []) if isinstance(getattr(n, "body", None), list) else []:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                st.value.value = " ".join(st.value.value.split())
    return tree
