import numpy as np

import core

ID = "C11"
LEVEL = "model_checking"
MODELS = [("MCSampling", "MCSampling.cfg")]
TRACE = "TraceSampling"
RULE = "a Kpoints object with a random reciprocal cell and path; non-trivial when the path has a break"
ASSUMPTIONS = ["lengths and coordinates are compared at a resolution of 3e-4 of the unit"]

NAMES = ["GAMMA", "X", "M1", "K", "SIGMA0", "L_P", "Z"]


def cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(3000, 30000)):
        m = rng.choice([2, 2, 3, 4, 5, 7])
        names = rng.sample(NAMES, m)
        L = [[rng.randint(1, 6), 0, 0], [rng.randint(-2, 2), rng.randint(1, 6), 0],
             [rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(1, 6)]]
        big = rng.random() < 0.2
        co = [[rng.choice([0, 12, 24, -12, 8, 16, 6, rng.randint(-24, 24)]) * (3 if big else 1) for _ in range(3)] for _ in range(m)]
        mode = rng.random()
        path = None
        if mode < 0.9:
            path = [[rng.choice(names) for _ in range(rng.randint(2, 5))] for _ in range(rng.choice([1, 1, 2, 3, 5, 12]))]
        elif mode < 0.95:
            path = []
        out.append(dict(L=L, names=names, co=co, path=path, n=rng.choice([0, 1, 2, 3, 4, 7, 12, 12, 40]),
                        labels=[f"$l_{{{i}}}$" for i in range(m)] if rng.random() < 0.5 else None,
                        text=rng.random() < 0.5, dec=rng.choice([6, 7, 8]), rot=rng.randrange(10**6),
                        mir=rng.random() < 0.2, ints=rng.random() < 0.15, setn=rng.random() < 0.3))
    return out


def rotation(seed):
    g = np.random.default_rng(seed)
    q, r = np.linalg.qr(g.normal(size=(3, 3)))
    return q * np.sign(np.linalg.det(q))


def execute(case):
    w = core.wulfric()
    L = np.array(case["L"], dtype=float)
    R = rotation(case["rot"])
    rcell = L @ R
    if case["ints"]:  # numbers without a fraction, as they are typed
        rcell = np.array(case["L"]) if case["rot"] % 2 else [list(r) for r in case["L"]]
    names, co = case["names"], case["co"]
    path = case["path"]
    arg = path
    if path and case["text"]:
        arg = "|".join("-".join(s) for s in path)
    kw = dict(coordinates=[[v // 24 if case["ints"] and not any(u % 24 for u in c) else v / 24 for v in c] for c in co], names=list(names))
    if case["labels"]:
        kw["labels"] = list(case["labels"])
    if arg is not None:
        kw["path"] = arg
    if not case["setn"]:
        kw["n"] = case["n"]
    k, e = core.call(w.Kpoints, rcell, **kw)
    G = np.array(case["L"]) @ np.array(case["L"]).T
    rec = dict(exc=core.exc_name(e), gram=G.tolist(), n=case["n"], names=names,
               co={a: c for a, c in zip(names, co)},
               lab={a: b for a, b in zip(names, case["labels"] or names)},
               path=path if path is not None else [names], labels=[], table=[], default=True)
    view = dict(exc="", ticks=[], points=[], flat=[])
    rec["abs"], rec["rel"] = dict(view, id="abs"), dict(view, id="rel")
    if e is not None:
        return rec
    if case["setn"]:
        k.n = case["n"]
    lab, e = core.call(lambda: k.labels)
    rec["labels"] = [str(v) for v in lab] if e is None else ["!" + core.exc_name(e)]
    inv = np.linalg.inv(rcell)
    u = lambda a: np.round(np.clip(np.nan_to_num(np.asarray(a, dtype=float), nan=1e4), -2e4, 2e4) * 1e4).astype(int).tolist()
    for o, rel in ((rec["abs"], False), (rec["rel"], True)):
        t, e1 = core.call(k.ticks, relative=rel)
        p, e2 = core.call(k.points, relative=rel)
        f, e3 = core.call(k.flat_points, relative=rel)
        o["exc"] = core.exc_name(e1 or e2 or e3)
        if o["exc"]:
            continue
        p = np.asarray(p, dtype=float)
        o["ticks"], o["flat"] = u(t), u(f)
        o["points"] = u(p if rel else p @ inv) if p.ndim == 2 and p.shape[1:] == (3,) else [[99, 99, 99]]
        if not rel:
            d, e4 = core.call(lambda: (k.ticks(), k.points(), k.flat_points()))
            rec["default"] = e4 is None and all(np.array_equal(x, y) for x, y in zip(d, (t, p, f)))
    s, e = core.call(k.hs_table, decimals=case["dec"])
    if e is None:
        for row in s.split("\n")[1:]:
            c = row.split()
            if len(c) != 7:
                rec["table"].append(dict(n="?", rel=[], abs=[]))
                continue
            v = [float(x) for x in c[1:]]
            rec["table"].append(dict(n=c[0], rel=u(v[:3]), abs=u(np.array(v[3:]) @ inv)))
    return rec


def nontrivial(r):
    return len(r["path"]) > 1
