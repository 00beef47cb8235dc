import math

import numpy as np

import core

ID = "C27"
LEVEL = "model_checking"
MODELS = [("MCExamples", "MCExamples.cfg")]
MODELS_THOROUGH = [("MCExamples", "MCExamples_deep.cfg")]
TRACE = "TraceExamples"
RULE = "a requested example, a history of requests and changes, or a constructed primitive cell; non-trivial unless a request is refused"
ASSUMPTIONS = [
    "the space group found by spglib itself is the reference",
    "where equality is a variation of its own (ORCF3, MCLC2, MCLC4, TRI2) the metric of the example decides to 1%",
]
HP = "cP1 cP2 cF1 cF2 cI1 tP1 tI1 tI2 oP1 oF1 oF2 oF3 oI1 oI2 oI3 oC1 oC2 oA1 oA2 hP1 hP2 hR1 hR2 mP1 mC1 mC2 mC3 aP2 aP3".split()
SC = "CUB FCC BCC TET BCT1 BCT2 ORC ORCF1 ORCF2 ORCF3 ORCI ORCC HEX RHL1 RHL2 MCL MCLC1 MCLC2 MCLC3 MCLC4 MCLC5 TRI1a TRI2a TRI1b TRI2b".split()
SHORT = "CUB FCC BCC TET BCT ORC ORCF ORCI ORCC HEX RHL MCL MCLC TRI".split()
NOTSTR = [None, 5, 1.5, ("cP1",), b"cP1", True]
ARGS = dict(CUB="a", FCC="a", BCC="a", TET="ac", BCT="ac", ORC="abc", ORCF="abc", ORCI="abc", ORCC="abc", HEX="ac",
            RHL="ax", MCL="abcx", MCLC="abcx", TRI="abcxyz")


def cases(ctx):
    rng = ctx.rng
    out = []

    def st(conv, name, inv, s=True):
        out.append(dict(kind="structure", op=dict(op="get", conv=conv, name=name, inv=inv, str=s)))

    for v in SC + SHORT:
        for n in sorted({v, v.lower(), v.upper(), v.swapcase(), v.title(), "".join(rng.choice([c.lower(), c.upper()]) for c in v)}):
            st("sc", n, False)
    for v in HP + sorted({x[:2] for x in HP}):
        for inv in (False, True):
            st("hpkot", v, inv)
            for n in sorted({v.lower(), v.upper()} - {v}):
                st("hpkot", n, inv)
    for i in range(len(NOTSTR)):
        st("sc", str(i), False, False)
        st("hpkot", str(i), False, False)
        st("hpkot", str(i), True, False)
    out += [dict(kind="history", hist=h["hist"]) for h in ctx.generate("GenExamples", "GenExamples.cfg", simulate=ctx.pick(400, 6000), depth=30)]
    n = ctx.pick(1500, 20000)
    while len([1 for c in out if c["kind"] == "cell"]) < n:
        for _ in range(200):
            f = rng.choice(SHORT)
            p = [rng.randint(2, 40) for _ in range(3)]
            if rng.random() < 0.15:
                p[1] = p[0]
            k = [rng.randint(-19, 19) for _ in range(3)]
            if f == "RHL":
                k[0] = rng.randint(-9, 19)
            if f == "TRI":
                x, y, z = (v / 20 for v in k)
                if 1 + 2 * x * y * z - x * x - y * y - z * z < 0.02:
                    continue
            out.append(dict(kind="cell", f=f, p=p + k, rec=f == "TRI" and rng.random() < 0.5))
    return out


def get(w, op):
    name = op["name"] if op["str"] else NOTSTR[int(op["name"]) % len(NOTSTR) if op["name"].isdigit() else 0]
    if op["conv"] == "sc":
        return w.cell.sc_get_example(name), None
    return w.crystal.hpkot_get_example(name, with_inversion=op["inv"])


def quantised(cell):
    c = np.asarray(cell, dtype=float)
    g = c @ c.T
    return [[int(round(v)) for v in r] for r in g / np.abs(g).max() * 900]


def structure(w, case):
    op = case["op"]
    r = dict(case, exc="", shape=False, label="", seen=0, sg=0, gram=[[0] * 3] * 3)
    res, e = core.call(get, w, op)
    r["exc"] = core.exc_name(e)
    if e is not None:
        return r
    cell, atoms = res
    cell = np.array(cell, dtype=float)
    if op["conv"] == "sc":
        atoms = dict(names=["X1"], positions=np.zeros((1, 3)), spglib_types=[1])
        types = [1]
    else:
        n = len(atoms.get("names", []))
        if n == 0 or np.shape(atoms.get("positions", [])) != (n, 3):
            return r
        sp, e = core.call(w.crystal.get_atoms_species, atoms)
        if e is not None:
            r["exc"] = core.exc_name(e)
            return r
        types = [sorted(set(sp)).index(x) + 1 for x in sp]
    r["shape"] = cell.shape == (3, 3)
    import spglib

    r["sg"] = int(spglib.get_symmetry_dataset((cell, np.array(atoms["positions"]), types), symprec=1e-5).number)

    def judge():
        sd = w.get_spglib_data(cell, atoms)
        r["seen"] = int(sd.space_group_number)
        if op["conv"] == "sc":
            r["label"] = str(w.crystal.sc_get_variation(cell, atoms))
            conv = w.crystal.get_conventional(cell, atoms, convention="SC")[0]
        else:
            r["label"] = str(w.crystal.hpkot_get_extended_bl_symbol(cell, atoms))
            conv = w.crystal.get_conventional(cell, atoms, convention="HPKOT")[0]
        r["gram"] = quantised(conv)

    _, e = core.call(judge)
    if e is not None:
        r["exc"] = core.exc_name(e)
    return r


def history(w, case):
    objs, codes, out = [], {}, []
    for op in case["hist"]:
        exc = ""
        if op["op"] == "get":
            res, e = core.call(get, w, op)
            exc = core.exc_name(e)
            if e is None:
                objs.append(res)
        elif objs:
            cell, atoms = objs[(op["i"] - 1) % len(objs)]
            cell[op["f"] % 3] += 0.25
            if atoms is not None and op["f"] > 1:
                atoms["names"][0] = "Og"
                np.asarray(atoms["positions"])[0] += 0.125
                if op["f"] > 2:
                    atoms["extra"] = len(atoms)
        seen = []
        for c, a in objs:
            t = repr(np.asarray(c).tolist()) + repr(None if a is None else {k: np.asarray(v).tolist() for k, v in sorted(a.items())} if not (a is not None and "extra" in a) else (len(a), a["extra"], [str(n) for n in a["names"]]))
            seen.append(codes.setdefault(t, len(codes)))
        out.append(dict(op=op, exc=exc, codes=seen))
    return dict(kind="history", hist=out)


def cell(w, case):
    f, p = case["f"], case["p"]
    deg = [math.degrees(math.acos(v / 20)) for v in p[3:]]
    val = dict(zip("abcxyz", [v / 10 for v in p[:3]] + deg))
    kw = [val[k] for k in ARGS[f]]
    fn = getattr(w.cell, "SC_" + f)
    r = dict(case, exc="", shape=False, gramok=False, gram=[], right=False, form=[])
    c, e = core.call(fn, *kw, **(dict(input_reciprocal=True) if case["rec"] else {}))
    r["exc"] = core.exc_name(e)
    if e is not None:
        return r
    c = np.array(c, dtype=float)
    r["shape"] = c.shape == (3, 3)
    if not r["shape"]:
        return r
    r["right"] = bool(np.linalg.det(c) > 0)
    d = 2 * math.pi * np.linalg.inv(c).T if case["rec"] else c
    r["gram"], r["gramok"] = core.qmat(d @ d.T * 8000, 1, 1e-3)
    r["form"] = core.qmat(np.sign(c) * c * c * 100 * 1000 if not case["rec"] else np.zeros((3, 3)), 1, 1)[0]
    return r


def execute(case):
    w = core.wulfric()
    return dict(structure=structure, history=history, cell=cell)[case["kind"]](w, case)


def nontrivial(r):
    return not r.get("exc") if r["kind"] != "history" else any(h["exc"] for h in r["hist"])
