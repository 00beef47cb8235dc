import numpy as np

import core

ID = "C13"
LEVEL = "model_checking"
MODELS = [("MCCwt", "MCCwt.cfg")]
TRACE = "TraceCwt"
RULE = "a pair of numbers with a tolerance, all six conditions; non-trivial when the numbers differ"
ASSUMPTIONS = ["exactly on the border of a decimal (default) tolerance only the order axioms are judged"]

OTHER = ["=", "<>", "=<", "=>", "", " ==", "eq", "===", "!", "lt", "<<", "≤"]


def cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(20000, 200000)):
        c = dict(kind=rng.choice(["float", "float", "np", "int", "f32"]))
        if rng.random() < 0.6:  # explicit tolerance, exact binary scale
            sc = rng.choice([-30, -20, -10, 0, 0, 10, 40])
            e = rng.choice([0, 0, 1, 2, 5, rng.randint(0, 1000)])
            y = rng.choice([0, rng.randint(-5, 5), rng.randint(-100000, 100000)])
            x = y + rng.choice([0, 1, -1, e, -e, e + 1, -e - 1, e - 1, 1 - e, rng.randint(-2000, 2000), -2 * y])
            c.update(given=True, x=x, y=y, eps=e, scale=sc, yu=0, atol=0, rtol=0)
            if c["kind"] == "int":
                c["scale"] = 0
        else:  # default tolerance: y = yu * 1e-3, differences in 1e-8
            yu = rng.choice([0, 1, -1, rng.randint(-2000, 2000), rng.randint(-20000, 20000)])
            dflt = rng.random() < 0.6
            a, r = (1, 1) if dflt else (rng.choice([0, 1, 7, 100]), rng.choice([0, 1, 3, 10]))
            e = a + r * abs(yu)
            d = rng.choice([0, e - 1, 1 - e, e + 1, -e - 1, 2 * e, -2 * e, e // 2, -(e // 2), rng.randint(-3 * e - 2, 3 * e + 2),
                            a + r * abs(yu) // 2, -100000 * yu, -200000 * yu])
            if abs(d) > 10**9 or abs(abs(d) - e) == 0 and e:
                d = e // 3
            # keep the model's integers within 32 bits: the pair is shifted by y
            c.update(given=False, x=d, y=0, eps=0, scale=0, yu=yu, atol=a, rtol=r, dflt=dflt)
            if c["kind"] in ("int", "f32"):
                c["kind"] = "float"
        c["other"] = rng.choice(OTHER) if rng.random() < 0.1 else None
        out.append(c)
    return out


def execute(case):
    w = core.wulfric()
    f = w.compare_with_tolerance
    kw = {}
    if case["given"]:
        s = 2.0 ** case["scale"]
        x, y, e = case["x"] * s, case["y"] * s, case["eps"] * s
        if case["kind"] == "int":
            x, y, e = case["x"], case["y"], case["eps"]
        kw["eps"] = e
    else:
        y = case["yu"] / 1000
        x = y + case["x"] * 1e-8
        if not case["dflt"]:
            kw.update(rtol=case["rtol"] * 1e-5, atol=case["atol"] * 1e-8)
    if case["kind"] == "np":
        x, y = np.float64(x), np.float64(y)
    if case["kind"] == "f32" and abs(case["x"]) < 2**20 and abs(case["y"]) < 2**20:
        x, y = np.float32(x), np.float32(y)
        if "eps" in kw:
            kw["eps"] = np.float32(kw["eps"])
    res = {}
    for op in ("<", ">", "<=", ">=", "==", "!="):
        r, e = core.call(f, x, op, y, **kw)
        if e is not None:
            res[op] = core.exc_name(e)
        else:
            res[op] = "T" if r is True or (isinstance(r, np.bool_) and bool(r)) else "F" if r is False or (isinstance(r, np.bool_) and not r) else repr(type(r))
    other = []
    if case["other"] is not None:
        _, e = core.call(f, x, case["other"], y, **kw)
        other = [core.exc_name(e)]
    return dict(x=case["x"], y=case["y"], eps=case["eps"], given=case["given"], yu=case["yu"],
                atol=case["atol"], rtol=case["rtol"], res=res, other=other)


def nontrivial(r):
    return r["x"] != r["y"]
