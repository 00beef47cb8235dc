import core

ID = "C16"
LEVEL = "model_checking"
MODELS = [("MCNames", "MCNames_quick.cfg")]
MODELS_THOROUGH = [("MCNames", "MCNames_deep.cfg")]
TRACE = "TraceNames"
RULE = "a list of names, all strategies; non-trivial when a name is repeated"
ASSUMPTIONS = ["the repeated-only strategy may rename in place, as the documentation shows"]

POOL = ["A", "A1", "A11", "A2", "1", "", "Cr", "Cr1", "Cr2", "Br", "B", "B1", "B10", "B01", "A0", "A01", "x y", " ", "A ", " A", "a", "cr", "CR", "\t", "é", "Fe2+", "Fe_", "A-1", "0", "00", "A\n"]


def cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(6000, 60000)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 23, 101]) if rng.random() < 0.7 else rng.randint(2, 30)
        pool = rng.sample(POOL, rng.choice([1, 2, 3, 4, 6]))
        if rng.random() < 0.08:  # names that continue each other, indices of one to three digits
            n = rng.choice([11, 21, 101, 112, 121])
            b = rng.choice(["A", "Cr", "1", ""])
            pool = [b, b + "1", b + rng.choice(["0", "10", "01", "11"])]
        names = [rng.choice(pool) for _ in range(n)]
        if rng.random() < 0.15:
            names = list(dict.fromkeys(names))
        out.append(dict(names=names, upper=rng.random() < 0.2))
    return out


def execute(case):
    w = core.wulfric()
    f = w.crystal.get_unique_names
    outs = []
    for sid in ("default", "all", "repeated-only", "unknown"):
        names = list(case["names"])
        atoms = dict(names=names, charge=[0.5] * len(names))
        st = sid.upper() if case["upper"] else sid
        a = (atoms,) if sid == "default" else (atoms, st)
        r, e = core.call(f, *a)
        o = dict(id=sid, exc=core.exc_name(e), out=[], after=[], kept=False, again=[])
        if e is None:
            o["out"] = [str(v) for v in r]
            o["after"] = [str(v) for v in atoms["names"]]
            o["kept"] = list(atoms) == ["names", "charge"] and atoms["charge"] == [0.5] * len(names)
            r2, e2 = core.call(f, dict(names=list(o["out"])), *a[1:])
            o["again"] = [str(v) for v in r2] if e2 is None else ["!" + core.exc_name(e2)]
        outs.append(o)
    return dict(names=case["names"], outs=outs)


def nontrivial(r):
    return len(set(r["names"])) < len(r["names"])
