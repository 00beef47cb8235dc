import math

import numpy as np

import core

ID = "C18"
LEVEL = "model_checking"
MODELS = [("MCCell", "MCCell.cfg")]
TRACE = "TraceCell"
RULE = "a cell with everything derived from it, a pair of vectors, or six parameters; non-trivial cells are not diagonal"
ASSUMPTIONS = [
    "cells are rotated and scaled integer matrices of determinant up to a few thousand",
    "six parameters are at least one degree and 1e-3 of a unit away from zero and from the border of the inequalities",
]


def cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(3000, 30000)):
        while True:
            s = rng.choice([1, 2, 5, 9])
            M = [[rng.randint(-s, s) for _ in range(3)] for _ in range(3)]
            if rng.random() < 0.3:
                M = [[M[i][j] if rng.random() < 0.3 else (rng.randint(1, 9) if i == j else 0) for j in range(3)] for i in range(3)]
            d = round(np.linalg.det(M))
            if d and np.linalg.cond(np.array(M, dtype=float)) < 300:
                break
        P = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(3)]
        out.append(dict(kind="cell", cell=M, P=P, den=rng.choice([1, 1, 2, 3, 6]), scale=10 ** rng.uniform(-1.3, 2),
                        rot=rng.randrange(10**6) if rng.random() < 0.7 else 0, range=[rng.choice([0, 1, 1, 2, 3]) for _ in range(3)],
                        form=rng.choice(["array", "list", "tuple"])))
        if rng.random() < 0.1:  # the cell as integers
            out[-1].update(scale=1, rot=0, den=1, form=rng.choice(["ints", "intarray"]))
        if rng.random() < 0.15:
            out[-1]["range"] = "default"
    for _ in range(ctx.pick(3000, 30000)):
        s = rng.choice([1, 2, 7])
        u, v = ([rng.randint(-s, s) for _ in range(3)] for _ in range(2))
        if rng.random() < 0.2:
            v = [rng.choice([-2, 3]) * x for x in u]
        while True:
            p = rng.choice([[0, 0, 1], [0, 0, 1], [1, 0, 0], [0, 0, -2], [1, 1, 1], [1, -2, 3], [3, 0, 4]])
            q = np.cross(p, [rng.randint(-2, 2) for _ in range(3)]).tolist()
            if any(q):
                break
        dflt = rng.random() < 0.4
        if dflt:
            p, q = [0, 0, 1], [1, 0, 0]
        w = [rng.randint(-s, s) for _ in range(3)]
        if rng.random() < 0.2:
            w = [rng.choice([-2, 1, 3]) * x for x in p]
        if not any(w):
            w = [0, 1, 0]
        out.append(dict(kind="vec", u=u, v=v, w=w, pole=p, zero=q, dflt=dflt, scale=10 ** rng.choice([rng.uniform(-3, 3), rng.uniform(-14, 8)]), form=rng.choice(["array", "list", "tuple"])))
    for _ in range(ctx.pick(4000, 40000)):
        a = [rng.choice([1000, 1, 5000, 12345, 0, -1, -1000, 2]) if rng.random() < 0.3 else rng.randint(100, 20000) for _ in range(3)]
        m = rng.random()
        al, be = rng.randint(1000, 179000), rng.randint(1000, 179000)
        if m < 0.4:
            ga = rng.randint(1000, 179000)
        elif m < 0.8:  # near one of the borders
            ga = rng.choice([al + be, abs(al - be), 360000 - al - be]) + rng.choice([0, 1, -1, 5, -5, 1000, -1000])
        else:
            ga = rng.choice([0, -90000, 180000, 90000, 200000, 60000, 120000])
            if rng.random() < 0.5:
                al, be = rng.choice([60000, 90000, 120000]), rng.choice([60000, 90000, 120000])
        ang = [al, be, ga]
        rng.shuffle(ang)
        # tolerances at half steps, so that no comparison is on the border
        lt = rng.choice([None, None, None, 3, 500])
        at = rng.choice([None, None, None, 2, 700])
        omit = [i for i in range(6) if rng.random() < 0.5] if rng.random() < 0.25 else []
        p = a + ang
        for i in omit:  # parameters that are not given have documented defaults
            p[i] = 1000 if i < 3 else 90000
        out.append(dict(kind="six", p=p, lt=lt, at=at, omit=omit))
    return out


PAR = ["a", "b", "c", "alpha", "beta", "gamma"]


def rotation(seed):
    if not seed:
        return np.eye(3)
    q, _ = np.linalg.qr(np.random.default_rng(seed).normal(size=(3, 3)))
    return q * np.sign(np.linalg.det(q))


def form(a, f):
    if f == "ints":
        return np.round(np.asarray(a)).astype(int).tolist()
    if f == "intarray":
        return np.round(np.asarray(a)).astype(int)
    a = np.asarray(a, dtype=float)
    if f == "array":
        return a.copy()
    a = a.tolist()
    if f == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in a)
    return a


def run_cell(w, case):
    M = np.array(case["cell"])
    R, s = rotation(case["rot"]), case["scale"]
    A = M @ R * s
    det = int(round(np.linalg.det(M)))
    arg = form(A, case["form"])
    failed, off = [], []

    def do(name, f, *a):
        r, e = core.call(f, *a)
        if e is not None:
            failed.append(f"{name}:{core.exc_name(e)}")
        return r

    def ints(name, v, tol=1e-7):
        try:
            m, ok = core.qmat(np.atleast_2d(v), 1, tol)
        except Exception:
            m, ok = [[0, 0, 0]], False
        if not ok:
            off.append(name)
        return m

    cell = w.cell
    rec = do("get_reciprocal", cell.get_reciprocal, arg)
    recrec = None if failed else do("get_reciprocal", cell.get_reciprocal, rec)
    par = do("get_params", cell.get_params, arg)
    sp = do("get_scalar_products", cell.get_scalar_products, arg)
    v1 = do("get_volume", w.geometry.get_volume, arg)
    v3 = do("get_volume3", w.geometry.get_volume, *arg)
    v6 = fp = chk = None
    if par is not None:
        v6 = do("get_volume6", w.geometry.get_volume, *par)
        fp = do("from_params", cell.from_params, *par)
        chk = do("parallelepiped_check", w.geometry.parallelepiped_check, *par)
    _, e = core.call(w.geometry.get_volume, 1.0, 2.0)
    o = dict(failed=failed, off=off, volother=core.exc_name(e), kept=bool(np.array_equal(np.array(arg), A)))
    if not failed:
        c = lambda x: math.cos(math.radians(x))
        a, b, cc, al, be, ga = par
        tolr = 1e-4
        o.update(
            rec=ints("rec", np.asarray(rec) @ R.T * s * det / (2 * math.pi)),
            recrec=ints("recrec", np.asarray(recrec) @ R.T / s),
            len2=ints("len", [x * x / s / s for x in (a, b, cc)])[0],
            coss=ints("cos", [b * cc * c(al) / s / s, a * cc * c(be) / s / s, a * b * c(ga) / s / s], 1e-6)[0],
            inrange=bool(0 < al < 180 and 0 < be < 180 and 0 < ga < 180),
            sp=ints("sp", [x / s / s for x in sp])[0],
            # the root of a small difference loses digits
            vol=ints("vol", [v1 / s**3, v3 / s**3], 1e-7)[0] + ints("vol", [v6 / s**3], 2e-3)[0],
            fpgram=ints("fpgram", np.asarray(fp) @ np.asarray(fp).T / s / s, 1e-5),
            fporient=bool(abs(fp[0][1]) + abs(fp[0][2]) + abs(fp[1][2]) < tolr * s and fp[0][0] > 0 and fp[1][1] > 0 and fp[2][2] > 0),
            check=chk is True or bool(chk),
        )
    # transformation matrix: new cell = P^T M / den
    P, den = np.array(case["P"]), case["den"]
    new = P.T @ M
    T, e = core.call(cell.get_transformation_matrix, arg, form(new @ R * s / den, case["form"]))
    t = dict(exc=core.exc_name(e), new=new.tolist(), den=1, P=[[0] * 3] * 3, ok=False)
    if e is None:
        t["P"], t["ok"] = core.qmat(T, den, 1e-7)
    # lattice points
    rg = [1, 1, 1] if case["range"] == "default" else case["range"]
    rk = {} if case["range"] == "default" else dict(range=tuple(rg))
    lp = dict(range=rg, exc="", ok=True, rel=[], abs=[], shape=[], deep=False)
    res, e = core.call(lambda: (
        cell.get_lattice_points(arg, **rk, relative=True),
        cell.get_lattice_points(arg, **rk),
        cell.get_lattice_points(arg, **rk, flat=False),
        cell.get_lattice_points(arg, **rk, relative=True, flat=False)))
    lp["exc"] = core.exc_name(e)
    if e is None:
        try:
            lp["rel"], k1 = core.qmat(res[0], 1, 1e-6)
            lp["abs"], k2 = core.qmat(res[1] @ R.T / s, 1, 1e-7)
            lp["ok"] = k1 and k2
            lp["shape"] = list(res[2].shape)
            lp["deep"] = bool(np.array_equal(res[2].reshape(-1, 3), res[1]) and np.array_equal(res[3].reshape(-1, 3), res[0])
                              and res[3].shape == res[2].shape)
        except Exception:
            lp["ok"] = False
    return dict(kind="cell", cell=case["cell"], o=o, t=t, lp=lp)


def run_vec(w, case):
    f, s = case["form"], case["scale"]
    u, v = np.array(case["u"]), np.array(case["v"])
    n = math.sqrt(float(u @ u)) * math.sqrt(float(v @ v))
    a, e = core.call(w.geometry.get_angle, form(u * s, f), form(v * s * 3, f))
    b, e2 = core.call(w.geometry.get_angle, form(u * s, f), form(v * s * 3, f), radians=True)
    an = dict(u=case["u"], v=case["v"], exc=core.exc_name(e or e2), c=0, crad=0, inrange=False)
    if e is None and e2 is None:
        an["c"] = core.q(math.cos(math.radians(a)) * n, 1, 1e-7)[0]
        an["crad"] = core.q(math.cos(b) * n, 1, 1e-7)[0]
        an["inrange"] = bool(0 <= a <= 180 and abs(math.radians(a) - b) < 1e-12)
    x, p, z = (np.array(case[k]) for k in ("w", "pole", "zero"))
    kw = {} if case["dflt"] else dict(polar_axis=form(p, f), radial_line_zero=form(z, f))
    r, e = core.call(w.geometry.get_spherical, form(x * s, f), **kw)
    r2, e2 = core.call(w.geometry.get_spherical, form(x * s, f), in_degrees=False, **kw)
    sp = dict(v=case["w"], pole=case["pole"], zero=case["zero"], exc=core.exc_name(e or e2), ok=False)
    if e is None and e2 is None:
        R, th, ph = r
        R = R / s
        t, g = math.radians(th), math.radians(ph)
        third = np.cross(p, z)
        ln = lambda y: math.sqrt(float(y @ y))
        q = [core.q(R * R, 1, 1e-4), core.q(R * math.cos(t) * ln(p), 1, 1e-3),
             core.q(R * math.sin(t) * math.cos(g) * ln(z), 1, 1e-3), core.q(R * math.sin(t) * math.sin(g) * ln(third), 1, 1e-3)]
        sp.update(ok=all(k for _, k in q), r2=q[0][0], alongpole=q[1][0], alongzero=q[2][0], alongthird=q[3][0],
                  inrange=bool(0 <= th <= 180 + 1e-9 and 0 <= ph <= 360 + 1e-9),
                  radians=bool(abs(r2[0] - r[0]) <= 1e-9 * abs(r[0]) and abs(r2[1] - t) < 1e-9 and abs(r2[2] - g) < 1e-9),
                  onaxis=bool((abs(th) < 1e-6 and abs(ph) < 1e-6) or (abs(th - 180) < 1e-6 and abs(ph - 180) < 1e-6)))
    return dict(kind="vec", an=an, sp=sp)


def run_six(w, case):
    p = [v / 1000 for v in case["p"]]
    kw = {}
    # in units of half a step
    lt = 0 if case["lt"] is None else 2 * case["lt"] + 1
    at = 0 if case["at"] is None else 2 * case["at"] + 1
    if lt:
        kw["length_tolerance"] = lt / 2000
    if at:
        kw["angle_tolerance"] = at / 2000
    c, e = core.call(w.geometry.parallelepiped_check, *p, **kw)
    _, e1 = core.call(w.geometry.parallelepiped_check, *p, raise_error=True, **kw)
    if case.get("omit"):
        m, e2 = core.call(w.cell.from_params, **{k: v for i, (k, v) in enumerate(zip(PAR, p)) if i not in case["omit"]})
    else:
        m, e2 = core.call(w.cell.from_params, *p)
    back = True
    if e2 is None:
        q, e3 = core.call(w.cell.get_params, m)
        back = e3 is None and bool(np.allclose(q, p, rtol=1e-9, atol=1e-6))
    return dict(kind="six", six=dict(p=[2 * v for v in case["p"]], flat=360000, lt=lt, at=at, check=str(c) if e is None else core.exc_name(e),
                raises=core.exc_name(e1), build=core.exc_name(e2), back=back))


def execute(case):
    w = core.wulfric()
    return dict(cell=run_cell, vec=run_vec, six=run_six)[case["kind"]](w, case)


def nontrivial(r):
    return r["kind"] != "cell" or any(r["cell"][i][j] for i in range(3) for j in range(3) if i != j)
