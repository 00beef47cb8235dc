import collections
import copy

import numpy as np

import core

ID = "C14"
LEVEL = "model_checking"
MODELS = [("MCValidate", "MCValidate.cfg")]
TRACE = "TraceValidate"
RULE = "a dictionary of atoms generated by TLC entry by entry, mostly with at most one fault; non-trivial when it is refused"
ASSUMPTIONS = [
    "unjudged because the documentation does not settle them: boolean and numpy integer types, empty positions, text in positions",
]


def cases(ctx):
    return ctx.generate("GenValidate", "GenValidate.cfg", simulate=ctx.pick(15000, 60000), depth=12)


def item(x):
    if x.startswith("s:"):
        return x[2:]
    if x.startswith("i:"):
        return int(x[2:])
    if x.startswith("f:"):
        return float(x[2:])
    return {"none": None, "list": ["Cr"], "bytes": b"Cr", "o": 1.5}[x]


def value(e):
    k, f = e["key"], e["form"]
    if e["kind"] == "nolen":
        return [5, None, 1.5, (i for i in range(e["n"])), True, object()][f - 1]
    if k == "positions":
        sh = e["shape"]
        if sh == [-1]:
            v = [[0.1, 0.2, 0.3] for _ in range(e["n"])]
            if e["n"] < 2:
                return [[0.1, [0.2], 0.3]] * e["n"] if e["n"] else [[0.1, 0.2]]
            v[e["n"] - 1] = [0.1, 0.2]
            return v
        a = np.arange(int(np.prod(sh))).reshape(sh) / 8
        return a if f <= 2 else a.tolist() if f <= 4 else tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    v = [item(x) for x in e["items"]]
    if k == "magmoms":
        return [np.arange(e["n"]), v, tuple(v), [[0, 0, 1.0]] * e["n"], np.zeros((e["n"], 3)), dict.fromkeys(range(e["n"]))][f - 1]
    if k in ("labels", "_private", "Names", ""):
        return [v, "a" * e["n"], tuple(v), set(range(e["n"])), v, v][f - 1]
    return tuple(v) if f == 3 else v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def execute(case):
    w = core.wulfric()
    f = w.crystal.validate_atoms
    d = case["d"]
    # ragged positions of one atom (or none) have a length of their own
    for e in d:
        if e["key"] == "positions" and e["shape"] == [-1] and e["kind"] == "seq" and e["n"] == 0:
            e["n"], e["items"] = 1, ["o"]
            e["shape"] = [1, 2]
    atoms = {e["key"]: value(e) for e in d}
    # any kind of dictionary, any kind of collection of required keys
    n = sum(e["n"] + e["form"] for e in d) % 4
    if n == 1:
        atoms = w.add_sugar(atoms)
    elif n == 2:
        atoms = collections.OrderedDict(atoms)
    ref = {k: v if not isinstance(v, (list, tuple, np.ndarray, dict, set, str)) else copy.deepcopy(v) for k, v in atoms.items()}
    kw = dict(required_keys=[list, tuple, list, set][n](case["required"])) if case["required"] else {}
    r, e1 = core.call(f, atoms, **kw)
    rq, e2 = core.call(f, atoms, raise_errors=False, **kw)
    kept = list(atoms) == list(ref) and all(same(atoms[k], ref[k]) for k in ref)
    return dict(
        d=[dict(key=e["key"], kind=e["kind"], n=e["n"], items=e["items"], shape=e["shape"]) for e in d],
        required=case["required"], raised=core.exc_name(e1), value=str(r),
        quietraised=core.exc_name(e2), quiet=str(rq), kept=kept,
    )


def nontrivial(r):
    return r["raised"] != ""


def stats(cases, recs):
    return dict(outcomes=collections.Counter(r["raised"] or "accepted" for r in recs if r))
