"""C22: every name of the contract as a reference, its aliases, unknown names (Contract.tla),
and calls of every API (Bind.tla)."""
import hashlib, json, os, re
import engine, conv, drv_bind

NAMES = os.path.join(engine.DATA, "names.json")


def method_fn(n):
    p, _, last = n.rpartition(".")
    return "x." + last if p in ("torch.Tensor", "torch.nn.Module") else n


def one(a):
    name, src, kw = a
    return drv_bind.observe((name, [src], kw))


def pair(a):
    """calls of an alias and of its API: text with the function as written blanked out, marks, counts"""
    alias, canon, calls = a
    out = []
    for n in (alias, canon):
        fn = method_fn(n)
        o = drv_bind.observe((n, ["result = %s(%s)" % (fn, c) for c in calls], {}))
        t = []
        for text, m in o["sites"]:
            for f in sorted({method_fn(alias), method_fn(canon), alias, canon}, key=len, reverse=True):
                text = text.replace(f + "(", "<FN>(")
            t.append([text, m])
        out.append({"exc": o["exc"], "ret": o["ret"], "sites": t})
    return out


def check(pid, tier, rep):
    with open(NAMES) as f:
        N = json.load(f)
    T, G = drv_bind.table(), drv_bind.gold()
    env = {"NAMES": NAMES}
    quick = tier == "quick"
    # a few calls of every API, in the thorough tier all of them
    pick = {}
    rg, res = engine.par(lambda: engine.tlc("GenContract", env=env, workers=1, heap="3g"), lambda: drv_bind.generate(sorted(T), not quick, 3))
    for api, l in res.items():
        e = T[api]
        plain = [c for c in l if c["ctx"] == "assign" and all(x["k"] not in ("*", "**", "zz_alien") for x in c["call"]) and len(c["call"]) >= e["min"]]
        plain.sort(key=lambda c: (len(c["call"]), c["src"]))
        pick[api] = (plain[:2] + plain[-2:]) if quick else l
    recs = drv_bind.run_cases(pick, rep, G)
    rep.cov["calls"] = len(recs)
    for rec, clause, detail in drv_bind.judge(recs, 3):
        if rec["kind"] == "gone":
            continue
        rep.violation("C22.call-%s:%s" % (clause, hashlib.sha1(rec["src"].encode()).hexdigest()[:12]),
                      {"source": rec["src"], "written": rec.get("text", rec.get("got")), "expected": rec.get("exp") or rec.get("own") or rec.get("want"), "error": rec["exc"]})
    cases = rg.json("CASE")
    cases.sort(key=lambda c: c["src"])
    obs = engine.pmap(one, [(c["name"], c["src"], {}) for c in cases])
    nrec = []
    for c, o in zip(cases, obs):
        if "sites" not in o:
            o = {"exc": o.get("exc") or "TIMEOUT", "ret": [-1, -1], "sites": [["", False]]}
        text, marked = o["sites"][0]
        nrec.append({"form": c["form"], "name": c["name"], "src": c["src"], "exp": c["exp"], "exc": o["exc"], "ret": o["ret"], "marked": marked, "text": text,
                     "same": not o["exc"] and text == drv_bind.norm_text(c["exp"], c["src"])})
    jobs = []
    for a, c in sorted(N["alias"].items()):
        calls = ["", "va", "va, vb", "va, *xs", "va, zz_alien=1", "**ks"]
        e = T.get(c)
        if e:
            ps = [p for p in e["pos"] if p not in e["nokw"]]
            for n in range(1, len(ps) + 1):
                calls.append(", ".join("v_" + p for p in ps[:n]))
                calls.append(", ".join("%s=v_%s" % (p, p) for p in ps[:n]))
            for p in e["kwo"]:
                calls.append(", ".join(["v_" + q for q in ps[:max(1, e["min"])]] + ["%s=v_%s" % (p, p)]))
        jobs.append((a, c, calls))
    for (a, c, calls), o in zip(jobs, engine.pmap(pair, jobs)):
        if isinstance(o, dict):
            o = [{"exc": "TIMEOUT", "ret": [], "sites": []}, {"exc": "", "ret": [], "sites": []}]
        nrec.append({"form": "pair", "name": a, "src": "%s = %s" % (a, c), "exc": o[0]["exc"] or o[1]["exc"], "a": json.dumps(o[0], sort_keys=True), "b": json.dumps(o[1], sort_keys=True)})
    rep.cov["names"] = len(nrec)
    rep.traces += len(recs) + len(nrec)
    for rec, clause, detail in engine.judge("ContractTrace", nrec, env=env):
        rep.violation("C22.%s:%s:%s" % (clause, rec["form"], rec["name"]), {k: rec.get(k) for k in ("src", "text", "marked", "ret", "exp", "exc", "a", "b")} | {"model": detail})
    for c in cases[:4]:
        rep.sample(c)
