import itertools

import numpy as np

import core
import xtal

ID = "C19"
LEVEL = "model_checking"
MODELS = [("MCVoronoi", "MCVoronoi_quick.cfg")]
MODELS_THOROUGH = [("MCVoronoi", "MCVoronoi_deep.cfg")]
TRACE = "TraceVoronoi"
RULE = "a lattice (Selling parameters), a basis of it, an orientation and a unit of length; non-trivial when the cell is not a box"
ASSUMPTIONS = [
    "Voronoi neighbours have coordinates up to 8 in the basis (the code searches up to 10)",
    "lengths of the reduced basis differ by less than a factor of about ten",
]
PATTERNS = [  # zero patterns of the Selling parameters: the five kinds of cells and their borders
    [1, 1, 1, 1, 1, 1], [0, 1, 1, 1, 1, 1], [0, 1, 1, 1, 1, 0], [1, 1, 1, 0, 0, 0], [0, 1, 1, 1, 0, 1], [1, 1, 0, 0, 1, 1],
]


def gram(p):
    a, b, c, d, e, f = p
    return np.array([[a + d + e, -d, -e], [-d, b + d + f, -f], [-e, -f, c + e + f]])


def cases(ctx):
    rng = ctx.rng
    out = []
    n = ctx.pick(420, 6000)
    while len(out) < n:
        r = rng.random()
        if r < 0.35:  # many equal parameters: cubic, tetragonal, hexagonal, ... lattices
            k = rng.choice([[0, 1], [1, 2], [0, 1, 2], [0, 3], [1, 4]])
            p = [rng.choice(k) for _ in range(6)]
        elif r < 0.7:
            p = [rng.choice([0, 1, 2, 3, 5]) for _ in range(6)]
        elif r < 0.9:
            z = rng.choice(PATTERNS)
            p = [x * rng.randint(1, 12) for x in z]
        else:
            p = [rng.choice([0, 1, 1, 2, 12]) for _ in range(6)]
        G = gram(p)
        if round(np.linalg.det(G)) <= 0:
            continue
        far = rng.random() < 0.25
        M = xtal.unimodular(rng, steps=rng.choice([3, 5, 8] if far else [0, 0, 1, 2, 3]), maxent=9 if far else 3, det=rng.choice([1, 1, -1]))
        inv = np.round(np.linalg.inv(M)).astype(int)
        # neighbours of the origin in the basis M
        near = max(abs(np.array(c) @ inv).max() for c in itertools.product((0, 1), repeat=3))
        if near > (8 if far else 4) or (far and near < 6):
            continue
        out.append(dict(p=p, M=M.tolist(), rot=rng.choice([0, rng.randrange(1, 10**6)]), scale=10 ** rng.uniform(-2, 2),
                        what=rng.choice(["ws", "bz"]), form=rng.choice(["array", "list", "tuple"])))
    return out


def execute(case):
    import random

    w = core.wulfric()
    G = gram(case["p"]).astype(float)
    D = 2 * round(np.linalg.det(G))
    B = np.linalg.cholesky(G) * case["scale"]
    if case["rot"]:
        B = B @ xtal.random_rotation(random.Random(case["rot"]))
    C = np.array(case["M"], dtype=float) @ B
    if case["what"] == "bz":  # C is the reciprocal cell
        arg = 2 * np.pi * np.linalg.inv(C).T
        f = w.cell.get_brillouin_zone
    else:
        arg, f = C, w.cell.get_wigner_seitz_cell
    if case["form"] != "array":
        arg = [list(x) if case["form"] == "list" else tuple(x) for x in arg.tolist()]
        arg = arg if case["form"] == "list" else tuple(arg)
    rec = dict(p=case["p"], M=case["M"], exc="", shape=False, ongrid=False, v=[], e=[])
    res, e = core.call(f, arg)
    rec["exc"] = core.exc_name(e)
    if e is not None:
        return rec
    try:
        v, ed = res
        v, ed = np.asarray(v, dtype=float), np.asarray(ed)
        rec["shape"] = bool(v.ndim == 2 and v.shape[1] == 3 and ed.ndim == 2 and ed.shape[1] == 2 and ed.dtype.kind in "iu")
        rec["v"], rec["ongrid"] = core.qmat(v @ np.linalg.inv(B), D, 1e-3)
        rec["e"] = (ed.astype(int) + 1).tolist()
    except Exception:
        rec["shape"] = False
    return rec


def nontrivial(r):
    return len(r["v"]) > 8
