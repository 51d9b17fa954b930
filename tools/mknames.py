"""Freeze data/names.json (run by hand): names, aliases, references.  The counterpart of a
plain reference comes from the mapping; for APIs with a conversion of their own it is taken
from the converter at hand."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
sys.path.insert(0, HERE + "/tools")
import engine, drv_bind
from mkcontract import M, A, AL, PKG, CLS, PCLS
PK = dict(PKG, timm="paddle", einops="paddle", os="os", setuptools="setuptools")


def ref(n, e):
    m = e.get("Matcher")
    if m == "ChangePrefixMatcher":
        return PK[n.split(".")[0]] + "." + n.split(".", 1)[1]
    if m in ("ChangeAPIMatcher", "GenericMatcher"):
        return e["paddle_api"]
    if m is None:
        return ""
    return None


def main():
    name, member = {}, {}
    for src, kind in ((M, "api"), (A, "attr")):
        for n, e in src.items():
            if n in AL or n.split(".")[0] in ("os", "setuptools", "einops") or n.startswith("torch.torch."):
                continue
            name[n] = {"kind": kind, "ref": ref(n, e), "parent": n.rpartition(".")[0], "last": n.rpartition(".")[2]}
    # own conversions: what a reference becomes
    own = [n for n in name if name[n]["ref"] is None]
    obs = engine.pmap(drv_bind.observe, [(n, ["result = " + n], {}) for n in own])
    for n, o in zip(own, obs):
        t = o["sites"][0][0]
        assert t.startswith("result = "), (n, o)
        par = name.get(name[n]["parent"])
        r = "" if o["ret"] == [0, 1] else t[len("result = "):]
        if par and par["ref"] and r == par["ref"] + "." + name[n]["last"]:
            r = ""
        name[n]["ref"] = r
    seen = set()
    for c in ("torch.Tensor", "torch.autograd.function.FunctionCtx"):
        for n, e in A.items():
            if n.rpartition(".")[0] == c and n.rpartition(".")[2] not in seen:
                last = n.rpartition(".")[2]
                seen.add(last)
                member["x." + last] = {"kind": "attr", "last": last, "parent": c, "ref": "" if e.get("Matcher") is None else "x." + last if e["Matcher"] == "ChangePrefixMatcher" else "?"}
    own = [n for n in member if member[n]["ref"] == "?"]
    obs = engine.pmap(drv_bind.observe, [(n, ["result = " + n], {}) for n in own])
    for n, o in zip(own, obs):
        assert o["ret"] == [1, 0]
        member[n]["ref"] = o["sites"][0][0][len("result = "):]
    spaces = sorted({".".join(n.split(".")[:k]) for n in list(name) + list(AL) for k in range(1, len(n.split(".")))} | {"torch.zz_space", "torch.nn.zz.yy", "timm", "mmcv.zz", "transformers.zz"})
    unknown = {}
    for s in spaces:
        for z in ("zz_unknown", "Zz"):
            n = s + "." + z
            unknown[n] = {"kind": "unknown", "ref": "", "parent": s, "last": z}
    # targets of aliases that have no entry of their own, and the aliases themselves
    for a, c in AL.items():
        if c not in name:
            unknown[c] = {"kind": "unknown", "ref": "", "parent": c.rpartition(".")[0], "last": c.rpartition(".")[2]}
    alias = dict(AL)
    for a in alias:
        name.setdefault(a, {"kind": "alias", "ref": "", "parent": a.rpartition(".")[0], "last": a.rpartition(".")[2]})
    json.dump({"name": name, "member": member, "unknown": unknown, "alias": alias}, open(HERE + "/data/names.json", "w"), indent=0, sort_keys=True)
    print(len(name), len(member), len(unknown), len(alias))


main()
