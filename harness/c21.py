import io
import os
import shutil
import tempfile

import numpy as np

import core

ID = "C21"
LEVEL = "model_checking"
MODELS = [("MCPoscar", "MCPoscar_quick.cfg")]
MODELS_THOROUGH = [("MCPoscar", "MCPoscar_deep.cfg")]
TRACE = "TracePoscar"
RULE = "one POSCAR file written line by line by TLC; non-trivial when it has a scale, Cartesian coordinates or selective dynamics"
ASSUMPTIONS = [
    "numbers are decimal, without exponents; cells are not singular",
    "without species line the names only have to tell the groups apart",
]


def cases(ctx):
    rng = ctx.rng
    out = []
    for g in ctx.generate("GenPoscar", "GenPoscar.cfg", simulate=ctx.pick(5000, 60000), depth=70):
        if abs(np.linalg.det(np.array(g["M"]) / 10.0 ** g["u"])) < 1e-4:
            continue
        g["how"] = rng.choice(["path", "dir", "cwd", "file", "stringio", "lines"])
        g["sep"] = rng.choice([" ", "  ", "\t", "   "])
        g["lead"] = rng.choice(["", "", " ", "   "])
        g["tail"] = rng.choice(["", "", " ", "\t"])
        g["nl"] = rng.choice(["\n", "\n", "\r\n"])
        g["last"] = rng.random() < 0.7
        out.append(g)
    return out


def execute(case):
    w = core.wulfric()
    L = case["lines"]
    text = []
    mode = None
    hasnames = any(not x.lstrip("+-").isdigit() for x in L[5])
    k = 7 if hasnames else 6
    words = {k, k + 1} if L[k][0][0] in "sS" else {k}
    for i, line in enumerate(L):
        lead = "" if i in words or i == 0 else case["lead"]
        text.append(lead + case["sep"].join(line) + case["tail"])
    text = case["nl"].join(text) + (case["nl"] if case["last"] else "")
    u = case["u"]
    rec = dict(kind="file", lines=L, u=u, su=case["su"], tn=case["tn"], td=case["td"], cell=[], cellok=False, q=1, pos=[], posok=False,
               names=[], comment=[], first=core.codes(case["sep"].join(L[0])), valid=False, exc="")
    d = tempfile.mkdtemp(prefix="c21_")
    old = os.getcwd()
    try:
        os.chdir(d)
        p = os.path.join(d, "POSCAR" if case["how"] in ("dir", "cwd") else "x.poscar")
        if case["how"] in ("path", "dir", "cwd", "file"):
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
        if case["how"] == "cwd":
            res, e = core.call(w.io.load_poscar)
        elif case["how"] == "file":
            with open(p, encoding="utf-8") as f:
                res, e = core.call(w.io.load_poscar, f)
        elif case["how"] == "stringio":
            res, e = core.call(w.io.load_poscar, io.StringIO(text))
        elif case["how"] == "lines":

            class F:  # anything that has .readlines()
                def readlines(self):
                    return text.replace("\r\n", "\n").splitlines(keepends=True)

            res, e = core.call(w.io.load_poscar, F())
        else:
            res, e = core.call(w.io.load_poscar, d if case["how"] == "dir" else p)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    rec["exc"] = core.exc_name(e)
    if e is not None:
        return rec
    try:
        c, a, com = res
        vol = case["form"] == "vol"
        rec["cell"], rec["cellok"] = core.qmat(np.array(c, dtype=float), case["td"] if vol else 10.0 ** (u + case["su"]), 1e-3)
        rec["q"] = abs(round(np.linalg.det(np.array(case["M"])))) if case["cart"] else 10**u
        rec["pos"], rec["posok"] = core.qmat(np.array(a["positions"], dtype=float), rec["q"], 1e-3)
        rec["names"] = [str(x) for x in a["names"]]
        rec["comment"] = core.codes(com)
        rec["valid"] = core.call(w.crystal.validate_atoms, a)[1] is None
    except Exception:
        rec["cellok"] = False
    return rec


def nontrivial(r):
    return len(r["lines"][1]) == 3 or r["lines"][1][0] not in ("1", "1.0", "1.000")
