import numpy as np

import core
import xtal

ID = "C12"
LEVEL = "model_checking"
MODELS = [("MCNiggli", "MCNiggli_quick.cfg")]
MODELS_THOROUGH = [("MCNiggli", "MCNiggli_deep.cfg")]
TRACE = "TraceNiggli"
RULE = "a basis of an exact lattice in a random unit and orientation; non-trivial when it is not yet reduced"
ASSUMPTIONS = [
    "lattices have an integer metric (exact ties or well separated values), up to one common length unit",
]

CENTRED = [
    [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
    [[1, 1, 0], [-1, 1, 0], [0, 0, 2]], [[2, 1, 1], [-1, 1, 1], [-1, -2, 1]],
]
SPECIAL = [  # metrics on the borders between the Niggli characters
    [[4, 2, 2], [2, 4, 2], [2, 2, 4]], [[3, -1, -1], [-1, 3, -1], [-1, -1, 3]],
    [[4, 2, 1], [2, 4, 2], [1, 2, 5]], [[4, -2, -1], [-2, 6, -3], [-1, -3, 8]],
    [[2, 0, -1], [0, 2, -1], [-1, -1, 3]], [[4, 0, 2], [0, 6, 3], [2, 3, 8]],
    [[4, 2, -1], [2, 6, -2], [-1, -2, 8]], [[6, 3, 3], [3, 6, 3], [3, 3, 7]],
    [[2, -1, 0], [-1, 2, 0], [0, 0, 1]], [[4, -2, 0], [-2, 5, -2], [0, -2, 6]],
]


def det(M):
    return int(round(np.linalg.det(np.array(M, dtype=float))))


def cases(ctx):
    rng = ctx.rng
    out = []
    # every metric on a border of the conditions, as the specification lists them
    for g in ctx.generate("GenNiggli", ctx.pick("GenNiggli.cfg", "GenNiggli_deep.cfg")):
        for k in range(ctx.pick(2, 6)):
            B = xtal.unimodular(rng, steps=(0, 2, 4)[k % 3], maxent=6, det=(1, -1)[k % 2]) if k else np.eye(3)
            out.append(dict(gram=g["gram"], basis=[[int(x) for x in r] for r in B], unit=10 ** rng.uniform(-1.3, 2),
                            rot=rng.randrange(1, 10**6), form="array"))
    for i in range(ctx.pick(6000, 60000)):
        if rng.random() < 0.35:
            G = np.array(rng.choice(SPECIAL))
        elif rng.random() < 0.3:  # random border metric of three small lengths
            while True:
                a, b, c = sorted(rng.randint(2, 8) for _ in range(3))
                G = np.array([[a, rng.randint(-a, a), rng.randint(-a, a)], [0, b, rng.randint(-b, b)], [0, 0, c]])
                G = np.triu(G) + np.triu(G, 1).T
                if np.all(np.linalg.eigvalsh(G.astype(float)) > 0.2):
                    break
        else:
            rots = xtal.hall_ops(rng.randint(1, 530))[0]
            G = xtal.gram(rng, rots, lo=1, hi=rng.choice([2, 4, 9]), skew=rng.choice([0, 1, 3, 6]))
        if rng.random() < 0.2:  # needles and plates
            S = np.diag([rng.choice([1, 1, 2, 5]), rng.choice([1, 1, 7, 12]), rng.choice([1, 9, 20])])
            G = S @ G @ S
        B = xtal.unimodular(rng, steps=rng.choice([0, 1, 2, 5, 8]), maxent=6, det=rng.choice([1, 1, -1]))
        if rng.random() < 0.15:  # far from reduced
            B = xtal.unimodular(rng, steps=rng.choice([12, 25]), maxent=30, det=rng.choice([1, -1]))
            if rng.random() < 0.3:
                B = np.eye(3, dtype=int)
                i, j = rng.sample(range(3), 2)
                B[i][j] = rng.choice([-1, 1]) * rng.randint(5, 30)
        if rng.random() < 0.3:  # of a centred sublattice
            C = np.array(rng.choice(CENTRED))
            G = C @ G @ C.T
        if np.abs(B @ G @ B.T).max() > 20000:
            continue
        zero = rng.random() < 0.04
        if zero:
            B = [list(map(int, r)) for r in B]
            k = rng.randrange(3)
            B[k] = rng.choice([[0, 0, 0], B[(k + 1) % 3], [2 * v for v in B[(k + 1) % 3]]])
            G = np.diag([rng.choice([1, 1, 4])] * 3)
        out.append(dict(gram=[[int(x) for x in r] for r in G], basis=[[int(x) for x in r] for r in B],
                        unit=10 ** rng.uniform(-1.3, 2), rot=rng.randrange(1, 10**6) if rng.random() < (0.4 if zero else 0.7) else 0,
                        form=rng.choice(["array", "list", "tuple"])))
    return out


def execute(case):
    w = core.wulfric()
    G = np.array(case["gram"], dtype=float)
    B = np.array(case["basis"])
    d = abs(np.linalg.det(B)) ** 2 * np.linalg.det(G)
    zero = det(B) == 0
    s = case["unit"] if zero else case["unit"] / d ** (1 / 6)
    cell = B @ np.linalg.cholesky(G) * s
    if case["rot"]:
        q, r = np.linalg.qr(np.random.default_rng(case["rot"]).normal(size=(3, 3)))
        cell = cell @ (q * np.sign(np.linalg.det(q)))
    arg = cell.copy()
    if case["form"] != "array":
        arg = cell.tolist()
    if case["form"] == "tuple":
        arg = tuple(tuple(v) for v in arg)
    outs = []
    for impl in ("spglib", "wulfric", "unknown"):
        # fewer iterations than the default only make a failure to terminate faster
        r, e = core.call(w.cell.get_niggli, arg, implementation=impl, max_iterations=5000)
        o = dict(id=impl, exc=core.exc_name(e), integral=False, t=[[0] * 3] * 3, kept=bool(np.array_equal(np.array(arg), cell)))
        if e is None:
            try:
                T = np.asarray(r, dtype=float) @ np.linalg.inv(cell)
                o["t"], o["integral"] = core.qmat(T, 1, 1e-4)
            except Exception:
                o["integral"] = False
        outs.append(o)
    return dict(gram=case["gram"], basis=case["basis"], outs=outs)


def nontrivial(r):
    return any(o["integral"] and o["t"] != [[1, 0, 0], [0, 1, 0], [0, 0, 1]] for o in r["outs"])
