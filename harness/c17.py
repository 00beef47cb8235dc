import copy

import numpy as np

import core

ID = "C17"
LEVEL = "model_checking"
MODELS = [("MCAtomOps", "MCAtomOps.cfg")]
TRACE = "TraceAtomOps"
RULE = "a history of operations on one dictionary of atoms; non-trivial when it moves atoms"
ASSUMPTIONS = [
    "coordinates are multiples of 1/128, so that float arithmetic on them is exact",
]
D = 256  # coordinates are even multiples of 1/D, kept even by the histories


def cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(6000, 60000)):
        n = rng.choice([1, 1, 2, 3, 5])
        big = rng.choice([1, 1, 3, 8])

        def co():
            return rng.choice([0, D, -D, D // 2, 128, -2, 2, -D + 2, 2 * D, 2 * rng.randint(-D * big // 2, D * big // 2)])

        cell = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)]
        for k in range(3):
            cell[k][k] += rng.choice([5, 9, -7])
        if rng.random() < 0.2:
            cell = [[2, 0, 0], [0, 3, 0], [0, 0, 4]]
        if abs(np.linalg.det(cell)) < 5:
            continue
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(["ensure", "cure", "shift", "shift-default", "shift-abs", "shift-nocell", "read", "read"])
            o = dict(op=op)
            if op.startswith("shift"):
                # the middle of even coordinates may be odd: multiples of 2 only after halving
                o["g"] = [4 * rng.randint(-D // 2, D // 2) if rng.random() < 0.7 else rng.choice([0, D, D // 2]) for _ in range(3)]
                if op == "shift-default":
                    o["g"] = [D // 2] * 3
                o["form"] = rng.choice(["list", "tuple", "array"])
            if op == "read":
                o.update(a=rng.randint(1, n), b=rng.randint(1, n), R=[rng.choice([0, 0, 1, -1, 3, -5, 7, 150, -300]) for _ in range(3)])
            ops.append(o)
        # every shift halves the granularity at most once: start coarse enough
        m = 2 ** sum(o["op"].startswith("shift") for o in ops)
        pos = [[(co() // (2 * m)) * 2 * m for _ in range(3)] for _ in range(n)]
        for o in ops:
            if "g" in o and o["op"] != "shift-default":
                o["g"] = [(v // (2 * m)) * 2 * m for v in o["g"]]
        if rng.random() < 0.08:  # numbers without a fraction
            pos = [[D * rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
        if rng.random() < 0.1:
            # steps far below any tolerance: the order of numbers decides, not closeness
            pos = [[16 * (v // 2) + rng.choice([-3, -1, 0, 0, 1, 2]) for v in p] for p in pos]
            ops = [dict(op=rng.choice(["ensure", "cure"])) for _ in range(rng.randint(1, 3))]
            out.append(dict(pos=pos, cell=cell, ops=ops, form=rng.choice(["list", "array", "rows", "tuple", "trows"]), cform="list", tiny=True))
            continue
        out.append(dict(pos=pos, cell=cell, ops=ops, form=rng.choice(["list", "array", "rows", "tuple", "trows"]),
                        cform=rng.choice(["list", "array", "tuple"])))
    return out


def as_form(v, f, dtype=float):
    if f == "array":
        return np.array(v, dtype=dtype)
    if f == "tuple":
        return tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in v)
    if f == "trows":
        return [tuple(x) for x in v]
    if f == "rows":
        return [np.array(x, dtype=dtype) for x in v]
    return v


TINY = 2.0**-44


def fine(c):
    m = (c + 8) // 16
    return m / 128 + (c - 16 * m) * TINY


def unfine(v):
    m = round(v * 128)
    t = (v - m / 128) / TINY
    return 16 * m + round(t), abs(t - round(t)) < 1e-6 and abs(t) < 8


def execute_tiny(case):
    c = core.wulfric().crystal
    n = len(case["pos"])
    atoms = dict(positions=as_form([[fine(v) for v in p] for p in case["pos"]], case["form"]), charge=[1.5] * n)
    steps = []
    for o in case["ops"]:
        _, e = core.call(c.ensure_000 if o["op"] == "ensure" else c.cure_negative, atoms)
        s = dict(op=o["op"], exc=core.exc_name(e), pos=[], ok=True, kept=atoms.get("charge") == [1.5] * n and len(atoms) == 2, g=[0, 0, 0], exact=True)
        if e is None:
            got = [[unfine(float(v)) for v in p] for p in atoms["positions"]]
            s["pos"] = [[v[0] for v in p] for p in got]
            s["ok"] = all(len(p) == 3 and all(v[1] for v in p) for p in got)
        steps.append(s)
        if e is not None:
            break
    return dict(pos=case["pos"], cell=case["cell"], steps=steps, D=16 * 128)


def execute(case):
    if case.get("tiny"):
        return execute_tiny(case)
    w = core.wulfric()
    c = w.crystal
    n = len(case["pos"])
    atoms = dict(names=[f"A{i}" for i in range(n)], positions=as_form([[v / D for v in p] for p in case["pos"]], case["form"]) if any(v % D for p in case["pos"] for v in p)
                 else as_form([[v // D for v in p] for p in case["pos"]], case["form"], int),
                 charge=[1.5] * n)
    cell = as_form([[float(v) for v in r] for r in case["cell"]], case["cform"])
    cell0 = np.array(cell)
    rest = copy.deepcopy({k: v for k, v in atoms.items() if k != "positions"})
    steps = []
    exact = True  # no float rounding so far
    u = lambda v, d=D: core.qmat([v], d, 1e-6)
    for o in case["ops"]:
        op = o["op"]
        s = dict(op=op, exc="", ok=True, pos=[], kept=True, g=o.get("g", [0, 0, 0]), exact=exact)
        if op == "ensure":
            _, e = core.call(c.ensure_000, atoms)
        elif op == "cure":
            _, e = core.call(c.cure_negative, atoms)
        elif op == "shift-default":
            _, e = core.call(c.shift_atoms, atoms)
        elif op == "shift":
            _, e = core.call(c.shift_atoms, atoms, gravity_point=as_form([v / D for v in o["g"]], o["form"]))
        elif op == "shift-abs":
            exact = False
            g = (np.array(o["g"]) / D) @ cell0
            _, e = core.call(c.shift_atoms, atoms, gravity_point=as_form(g.tolist(), o["form"]), cell=cell, gp_is_relative=False)
        elif op == "shift-nocell":
            _, e = core.call(c.shift_atoms, atoms, gravity_point=as_form([v / D for v in o["g"]], o["form"]), gp_is_relative=False)
        else:
            a, b, R = o["a"] - 1, o["b"] - 1, o["R"]
            mR = [-v for v in R]
            res, e = core.call(lambda: (
                c.get_vector(cell, atoms, a, b, R=tuple(R), return_relative=True),
                c.get_vector(cell, atoms, a, b, R=tuple(R)),
                c.get_distance(cell, atoms, a, b, R=tuple(R)),
                c.get_vector(cell, atoms, b, a, R=mR),
                c.get_distance(cell, atoms, b, a, R=mR)))
            s.update(a=o["a"], b=o["b"], R=R, rel=[], abs=[], d2=-1, back=[], d2back=-1, far=False)
            if e is None:
                (s["rel"],), k1 = u(res[0])
                (s["abs"],), k2 = u(res[1])
                (s["back"],), k3 = u(res[3])
                s["far"] = max(map(abs, s["abs"])) > 15000  # beyond the model's integers
                s["d2"], k4 = core.q(float(res[2]) ** 2, D * D, 1e-2)
                s["d2back"], k5 = core.q(float(res[4]) ** 2, D * D, 1e-2)
                s["ok"] = k1 and k2 and k3 and (s["far"] or k4 and k5)
        s["exc"] = core.exc_name(e)
        try:
            s["pos"], k = core.qmat(atoms["positions"], D, 1e-6)
            s["ok"] = s["ok"] and k and all(len(p) == 3 for p in s["pos"])
        except Exception:
            s["ok"] = False
        s["kept"] = {k: v for k, v in atoms.items() if k != "positions"} == rest and bool(np.array_equal(np.array(cell), cell0))
        steps.append(s)
        if e is not None and op != "shift-nocell":
            break
    return dict(pos=case["pos"], cell=case["cell"], steps=steps, D=D)


def nontrivial(r):
    return any(s["pos"] != r["pos"] for s in r["steps"])
