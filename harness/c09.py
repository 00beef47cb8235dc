import core

ID = "C09"
LEVEL = "model_checking"
MODELS = [("MCPathCodec", "MCPathCodec_quick.cfg")]
MODELS_THOROUGH = [("MCPathCodec", "MCPathCodec_deep.cfg")]
TRACE = "TraceCodec"
RULE = "a text or a list; non-trivial when it has more than one subpath"
ASSUMPTIONS = [
    "texts with an empty name (a separator at the start, at the end, or doubled) may be refused or kept as they are",
    "the empty list is not a path",
]

POOL = ["GAMMA", "X", "X1", "SIGMA0", "M2_P", "Γ", "K$_1$", "a b", "Z'", "é", "1", "H0", " ", "L\t", "\\"]


def cases(ctx):
    rng = ctx.rng
    out = []
    for g in ctx.generate("MCPathCodec", "GenPath.cfg"):
        out.append(dict(kind="text", t=g["t"]))
        if g["good"]:
            out.append(dict(kind="list", p=g["p"], as_="list"))
    for _ in range(ctx.pick(3000, 40000)):
        p = [
            [rng.choice(POOL) for _ in range(rng.randint(2, rng.choice([2, 3, 6, 20])))]
            for _ in range(rng.randint(1, rng.choice([1, 3, 8])))
        ]
        out.append(dict(kind="list", p=p, as_=rng.choice(["list", "tuple", "mixed"])))
        t = "|".join("-".join(s) for s in p)
        if rng.random() < 0.3:  # spoil it
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(["|", "-", "|G|", "||", "--", "|x-"]) + t[i:]
        out.append(dict(kind="text", t=t))
    for what in ("None", "int", "list", "bytes", "tuple"):
        out.append(dict(kind="bad", what=what))
    for what in ("s-int", "s-None", "s-list-int"):
        out.append(dict(kind="bad", what=what))
    return out


BAD = {"None": None, "int": 3, "list": [["G", "X"]], "bytes": b"G-X", "tuple": ("G", "X")}
SBAD = {"s-int": 3, "s-None": None, "s-list-int": [3, 4]}


def execute(case):
    w = core.wulfric()
    L, S = w.kpoints.get_path_as_list, w.kpoints.get_path_as_string
    r = dict(kind=case["kind"], exc="", bexc="", what=case.get("what", ""))
    if case["kind"] == "bad":
        k = case["what"]
        _, e = core.call(S, SBAD[k]) if k in SBAD else core.call(L, BAD[k])
        r["exc"] = core.exc_name(e)
        return r
    if case["kind"] == "text":
        r.update(t=case["t"], list=[], back="")
        v, e = core.call(L, case["t"])
        r["exc"] = core.exc_name(e)
        if e is None:
            r["list"] = [[str(n) for n in s] for s in v]
            b, e = core.call(S, v)
            r["bexc"], r["back"] = core.exc_name(e), b if e is None else ""
        return r
    p = case["p"]
    arg = p if case["as_"] == "list" else tuple(tuple(s) for s in p) if case["as_"] == "tuple" else [tuple(s) for s in p]
    v, e = core.call(S, arg)
    r.update(p=p, t="", list=[], exc=core.exc_name(e))
    if e is None:
        r["t"] = v
        b, e = core.call(L, v)
        r["bexc"] = core.exc_name(e)
        r["list"] = [[str(n) for n in s] for s in b] if e is None else []
    return r


def nontrivial(r):
    return len(r.get("p", [])) > 1 or "|" in r.get("t", "")
