"""Freeze the contract of the APIs from the mapping files of the pinned commit (run by
hand; data/contract.json is committed).  usage: mkcontract.py table"""
import json, keyword, re, sys, os
R = "/repo/paconvert/"
M = json.load(open(R + "api_mapping.json"))
A = json.load(open(R + "attribute_mapping.json"))
AL = json.load(open(R + "api_alias_mapping.json"))
SRC = open(R + "api_matcher.py").read()
PKG = {"torch": "paddle", "torchvision": "paddle", "torchaudio": "paddlespeech", "transformers": "paddleformers", "fairscale": "paddle", "flash_attn": "paddle"}
CLS = ("torch.Tensor", "torch.nn.Module", "torch.optim.Optimizer", "torch.autograd.function.FunctionCtx", "torch.distributions.distribution.Distribution")
PCLS = ("paddle.Tensor", "paddle.nn.Module", "paddle.optimizer.Optimizer", "paddle.optim.Optimizer", "paddle.distribution.Distribution", "paddle.distributions.distribution.Distribution", "paddle.autograd.function.FunctionCtx", "paddle.profiler.Profiler")
GDROP = ["layout", "device", "memory_format", "inplace", "generator", "non_blocking", "async"]


def words(matcher):
    m = re.search(r"^class %s\(.*?(?=^class |\Z)" % re.escape(matcher), SRC, re.M | re.S)
    return sorted({w for w in re.findall(r"""kwargs(?:\.get\(|\.pop\(|\[)\s*["'](\w+)["']""", m.group(0) if m else "") if not keyword.iskeyword(w)})


def entry(api, e, first):
    cls = api.rpartition(".")[0]
    meth = api.rpartition(".")[2]
    iscls = cls in CLS
    m = e.get("Matcher")
    al = e.get("args_list") or []
    star = "*" in al
    pos = al[:al.index("*")] if star else al
    kwo = al[al.index("*") + 1:] if star else []
    odd = [a for a in pos + kwo if a.startswith("*")]
    pos, kwo = [a for a in pos if not a.startswith("*")], [a for a in kwo if not a.startswith("*")]
    ch = {k: ([v] if v and not isinstance(v, list) else list(v) if v else []) for k, v in (e.get("kwargs_change") or {}).items()}
    if m == "ChangePrefixMatcher":
        style, target, drops = "pass", PKG.get(api.split(".")[0], "?") + "." + api.split(".", 1)[1], ["layout", "generator", "memory_format", "sparse_grad", "foreach"]
    elif m == "ChangeAPIMatcher":
        style, target, drops = "pass", e["paddle_api"], ["layout", "generator", "memory_format"]
    elif m == "GenericMatcher":
        style, target, drops = "generic", e["paddle_api"], GDROP
    elif m is None:
        style, target, drops = "none", "", []
    else:
        style, target, drops = "own", e.get("paddle_api", ""), []
    if iscls and target:
        for p in sorted(PCLS, key=len, reverse=True):
            if target.startswith(p + "."):
                target = "x" + target[len(p):]
                break
        else:
            if style != "own":
                style = "own"
    if odd or (iscls and not first):
        style = "own"
    if style == "own":
        drops = []
    vals = [x for x in (e.get("kwargs_change") or {}).values() if isinstance(x, str)]
    return {"style": style, "method": iscls, "fn": "x." + meth if iscls else api, "target": target, "pos": pos, "kwo": kwo, "min": e.get("min_input_args") or 0,
            "over": e.get("overload_args_list") or [], "uns": e.get("unsupport_args") or [], "change": ch, "drops": drops,
            "defaults": [[k, str(v)] for k, v in (e.get("paddle_default_kwargs") or {}).items()],
            "post": [p for p in ("dtype", "pin_memory", "requires_grad", "out") if p not in vals] if style == "generic" else [],
            "nokw": [a for a in pos + kwo if keyword.iskeyword(a)], "free": bool(odd) or style == "own" and not al, "words": words(m) if style == "own" else []}


def table():
    t, seen = {}, {}
    for c in CLS:
        for api in M:
            if api.rpartition(".")[0] == c:
                seen.setdefault(api.rpartition(".")[2], api)
    for api, e in M.items():
        cls = api.rpartition(".")[0]
        first = cls not in CLS or seen[api.rpartition(".")[2]] == api
        if not first:
            continue          # x.to(...) means the method of the first class that has it
        if api == "torch.torch.int32" or api in AL:
            continue
        t[api] = entry(api, e, first)
    return t


if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
    t = table()
    json.dump(t, open(d + "/contract.json", "w"), indent=0, sort_keys=True)
    import collections
    print(len(t), collections.Counter(e["style"] for e in t.values()))
