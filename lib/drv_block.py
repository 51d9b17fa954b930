"""C16 (and the block part of C19): programs of nested blocks generated from Block.tla,
converted; the statements of the output are read back and compared with the model."""
import ast, hashlib, json, re
import engine, conv

ANN = "Not Support auto convert"
CONS = ["if", "while", "for", "afor", "with", "awith", "with2", "def", "adef", "ddef", "class", "dclass", "try"]
FORMS = ["assign", "expr", "assert", "aug", "annasg", "del", "raise"]
PARTS = {"else": "else", "except": "except", "finally": "finally"}


# ------------------------------------------------------------ writing the program
def render(case, variant=0):
    out, depth = [], 0
    if variant % 3 == 1:
        out.append("'''doc torch.abs'''")
    if variant % 3 == 2:
        out.append("from __future__ import annotations")
    out.append("import torch")
    ind = lambda: "    " * depth
    for tok, s in zip(case["prog"], case["src"]):
        if tok["t"] == "s":
            out.append(ind() + s)
        elif tok["t"] == "o":
            m = re.match(r"(@.*) ((?:class|def) q\d+\(.*)$", s)
            if m:
                out.append(ind() + m.group(1))
                s = m.group(2)
            out.append(ind() + s + ":")
            depth += 1
        elif tok["t"] == "p":
            depth -= 1
            out.append(ind() + s + ":")
            depth += 1
        else:
            depth -= 1
    text = "\n".join(out) + "\n"
    return ast.unparse(ast.parse(text)) + "\n" if variant % 2 else text  # elif instead of else: if


# ------------------------------------------------------------ reading the output
class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id)
        return n


def is_pass(b):
    return all(isinstance(x, ast.Pass) for x in b)


def tokens(text):
    marked = {i + 1 for i in conv.marked_lines(text)}
    tree = ast.parse(conv.unmark(text))
    src_names = re.compile(r"^(?:[vwgqsQF]\d+|T\d+[a-z])$")
    names, count = {}, {}
    out = []

    def learn(st):
        """name the temporaries a statement defines after the statement they serve"""
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names and re.search(r"_\d+$", n.id):
                ids = [re.search(r"\d+", names.get(x.id, x.id)).group(0) for x in ast.walk(st)
                       if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and src_names.match(names.get(x.id, x.id))]
                k = ids[0] if ids else "0"
                count[k] = count.get(k, 0) + 1
                names[n.id] = "T%s%s" % (k, "abcdefghij"[min(count[k] - 1, 9)])

    def un(node):
        return ast.unparse(Rename(names).visit(node))

    def emit(t, x, line):
        out.append({"t": t, "x": x, "m": line in marked})

    def first(st):
        return min([st.lineno] + [d.lineno for d in getattr(st, "decorator_list", None) or []])

    def body(b):
        for st in b:
            stmt(st)

    def stmt(st):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str) and ANN in st.value.value:
            if not (out and out[-1]["x"] == "@note"):
                out.append({"t": "s", "x": "@note", "m": st.lineno in marked})
            return
        line = first(st)
        pre = "async " if isinstance(st, (ast.AsyncFor, ast.AsyncWith, ast.AsyncFunctionDef)) else ""
        if isinstance(st, (ast.If, ast.While)):
            kw = "if" if isinstance(st, ast.If) else "while"
            if not re.search(r"\bq\d+\b", ast.unparse(st.test)):  # generated
                emit("s", "%s %s: %s" % (kw, un(st.test), "; ".join(un(x) for x in st.body)), line)
                body(st.orelse)
                return
            emit("o", "%s %s" % (kw, un(st.test)), line)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            emit("o", "%sfor %s in %s" % (pre, un(st.target), un(st.iter)), line)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            emit("o", "%swith %s" % (pre, ", ".join(un(x) for x in st.items)), line)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d = "".join("@%s " % un(x) for x in st.decorator_list)
            emit("o", "%s%sdef %s(%s)" % (d, pre, st.name, un(st.args)), line)
        elif isinstance(st, ast.ClassDef):
            d = "".join("@%s " % un(x) for x in st.decorator_list)
            emit("o", "%sclass %s(%s)" % (d, st.name, ", ".join(un(x) for x in st.bases)), line)
        elif isinstance(st, ast.Try):
            emit("o", "try", line)
        else:
            learn(st)
            return emit("s", un(st), line)
        body(st.body)
        for h in getattr(st, "handlers", []):
            emit("p", "except %s" % un(h.type) if h.type else "except", h.lineno)
            body(h.body)
        orelse, final = getattr(st, "orelse", []), getattr(st, "finalbody", [])
        if orelse and not is_pass(orelse):
            out.append({"t": "p", "x": "else", "m": False})
            body(orelse)
        if final and (not is_pass(final) or not st.handlers):
            out.append({"t": "p", "x": "finally", "m": False})
            body(final)
        out.append({"t": "c", "x": "", "m": False})

    top = tree.body
    while top and (isinstance(top[0], ast.Import) and all(a.name in ("paddle", "numpy") for a in top[0].names)
                   or isinstance(top[0], ast.ImportFrom) and top[0].module == "__future__"
                   or isinstance(top[0], ast.Expr) and isinstance(top[0].value, ast.Constant) and "doc torch.abs" == str(top[0].value.value)):
        top = top[1:]
    body(top)
    return out


def observe(a):
    case, variant, nf = a
    r = conv.convert_text(render(case, variant), no_format=nf)
    rec = {"prog": case["prog"], "exc": r["exc"], "out": []}
    if r["out"] is None:
        rec["exc"] = rec["exc"] or "NoOutput"
        return rec
    try:
        rec["out"] = tokens(r["out"])
    except (SyntaxError, ValueError):
        rec["exc"] = "InvalidPython"
    return rec


# ------------------------------------------------------------ cases
def ask(**kw):
    d = {"leaves": [], "heads": [], "cons": CONS, "forms": FORMS, "tokens": 9, "depth": 3}
    d.update(kw)
    return engine.askfile(d)


def gen(**kw):
    r = engine.tlc("GenBlock", env=ask(**kw), heap="3g", workers=2)
    return [json.loads(x) for x in sorted(set(r.records["CASE"]))]


def cases(tier):
    q = tier == "quick"
    n = 500 if q else 12000
    sim = lambda k, t, d: lambda: engine.simulate("GenBlock", n, env=ask(tokens=t, depth=d), depth=140, seed=engine.SEED * 100 + k, heap="3g")
    small = ["plain", "exp", "annexp", "imp"]
    jobs = [
        # every kind of use in every shape of statement, after an ordinary statement
        lambda: gen(tokens=1, depth=0),
        # two statements in a row, every pair of kinds
        lambda: gen(tokens=2, depth=0, forms=["assign"]),
        # every compound statement x kind of header x one statement
        lambda: gen(tokens=4, depth=1, forms=["expr"], leaves=small),
        # if / loops / try with their parts, two statements around
        lambda: gen(tokens=6 if q else 7, depth=1, forms=["assign"], leaves=["exp", "imp"], heads=["plain", "exp"], cons=["if", "for", "try"]),
        sim(1, 10, 3), sim(2, 16, 4), sim(3, 24, 6), sim(4, 13, 6),
        # all the parts of try, with uses in each of them
        lambda: engine.simulate("GenBlock", 6 * n, env=ask(tokens=14, depth=1, cons=["try"], forms=["assign"], leaves=["exp", "annexp"],
                                heads=["plain"]), depth=60, seed=engine.SEED * 100 + 5, heap="3g"),
    ]
    res = engine.par(*jobs[:4]) + engine.par(*jobs[4:])
    return res


def check(pid, tier, rep):
    mc = engine.tlc_start("Block", "MCBlock", workers=2, heap="3g")
    groups = cases(tier)
    rep.cov["cases"] = [len(g) for g in groups]
    cs = [c for g in groups for c in g]
    jobs = []
    for n, c in enumerate(cs):
        jobs.append((c, n % 6, True))
        if n % 12 == 5 and not any(t["k"] in ("mix", "sib") for t in c["prog"]):
            jobs.append((c, n % 6, False))
    recs = engine.pmap(observe, jobs)
    for k, r in enumerate(recs):
        if "prog" not in r:
            recs[k] = {"prog": jobs[k][0]["prog"], "exc": r.get("exc") or "TIMEOUT", "out": []}
        recs[k]["job"] = k
    rep.traces += len(recs)
    engine.tlc_finish(mc)
    chunks = [recs[a::3] for a in range(3)]
    bads = engine.par(*[lambda c=c: engine.judge("BlockTrace", c, workers=1, heap="3g") for c in chunks if c])
    for rec, clause, detail in [b for l in bads for b in l]:
        c, v, nf = jobs[rec["job"]]
        code = render(c, v)
        rep.violation(clause + ":" + hashlib.sha1(code.encode()).hexdigest()[:12],
                      {"program": code, "no_format": nf, "exc": rec["exc"], "expected": detail, "observed": rec["out"]})
    for c in cs[::max(1, len(cs) // 4)]:
        rep.sample(render(c))
