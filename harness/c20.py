import copy
import io
import os
import shutil
import tempfile

import numpy as np

import core

ID = "C20"
LEVEL = "model_checking"
MODELS = [("MCPoscar", "MCPoscar_quick.cfg")]
MODELS_THOROUGH = [("MCPoscar", "MCPoscar_deep.cfg")]
TRACE = "TracePoscar"
RULE = "one crystal and a history of writing and reading it; non-trivial when it has several species"
ASSUMPTIONS = [
    "cells and positions are decimal numbers of up to six digits together",
    "comments are compared up to blanks at their ends; a line break in a comment becomes a blank",
]
SYM = ["Fe", "O", "Na", "Cl", "C", "H", "Cu", "Au", "N", "Ni", "U", "Y", "Br", "Gd", "As", "B", "K", "V", "W", "Og"]
WORDS = ["Fe", "O2", "title", "1.0", "2 2 2", "Direct", "$", "ü", "Å structure", "a\nb", "\n", "x\ry", "x\r\ny", "\t", "  ", "#", "日本", "1", "-", "\n\n", "Cartesian\n"]


def cases(ctx):
    rng = ctx.rng
    out = []
    while len(out) < ctx.pick(2500, 30000):
        du, dp = rng.choice([(0, 0), (0, 3), (1, 2), (1, 5), (2, 2), (2, 4), (3, 3), (3, 1), (4, 2), (1, 1)])
        if rng.random() < 0.06:
            out.append(dict(kind="refuse", what=rng.choice(["name", "mode"]), mode=rng.choice(["direct", "Cart", "", "cartesian", "D"]),
                            dest=rng.choice(["path", "stringio"]), name=rng.choice(["X", "1", "", "Q", "_", "x1"])))
            continue
        size = rng.choice([3, 9])
        # large cells and atoms far away: numbers of up to five digits before the point
        big = rng.choice(["cell", "atoms"]) if rng.random() < 0.2 else ""
        if big:
            du, dp = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1)])
            size = 400 if big == "cell" else 9
        cell = [[rng.randint(-size * 10**du, size * 10**du) for _ in range(3)] for _ in range(3)]
        if rng.random() < 0.4:  # boxes and other simple cells
            for i in range(3):
                for j in range(3):
                    if i != j and rng.random() < 0.8:
                        cell[i][j] = 0
        A = np.array(cell, dtype=float) / 10**du
        if abs(np.linalg.det(A)) < 1e-3 or np.linalg.cond(A) > 60:
            continue
        n = rng.choice([1, 2, 3, 3, 5, 8, 12, 26])
        kinds = rng.sample(SYM, min(rng.choice([1, 2, 3, 4]), len(SYM)))
        sp = [rng.choice(kinds) for _ in range(n)]
        pos = []
        for k in range(n):
            lo, hi = rng.choice([(0, 10**dp), (0, 10**dp), (-2 * 10**dp, 2 * 10**dp)])
            if big == "atoms":
                lo, hi = -250 * 10**dp, 250 * 10**dp
            pos.append([rng.choice([rng.randint(lo, hi), 0, 10**dp // 2]) for _ in range(3)])
        have = rng.choice(["names", "species", "both", "clash"])
        comment = rng.choice([" ", ""]).join(rng.choice(WORDS) for _ in range(rng.choice([0, 1, 1, 2, 4])))
        steps = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            dec = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 8, 10, 12, 15, None])
            if big and dec is not None:
                dec = min(dec, 10)
            d = 8 if dec is None else dec
            R = np.round(A, d)
            if abs(np.linalg.det(R)) < 1e-3 or np.linalg.cond(R) > 200:
                dec = 8
            steps.append(dict(mode=rng.choice(["Direct", "Cartesian"]), dec=dec, dflt=rng.random() < 0.1, asmode=rng.random() < 0.9,
                              dest=rng.choice(["path", "file", "stringio", "dir", "cwd"])))
        out.append(dict(kind="chain", du=du, dp=dp, cell=cell, pos=pos, sp=sp, have=have, comment=comment, steps=steps,
                        num=rng.random() < 0.5, rmax=5 if big else 6, form=rng.choice(["array", "list", "tuple"])))
    return out


def _form(M, form):
    if form == "array":
        return np.array(M, dtype=float)
    M = [[float(x) for x in v] for v in M]
    return M if form == "list" else tuple(tuple(v) for v in M)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def transfer(w, dest, d, cell, atoms, kw):
    """(text, error of writing, result, error of reading) in directory d."""
    p = os.path.join(d, "POSCAR" if dest in ("dir", "cwd") else "some.vasp")
    old = os.getcwd()
    res, rex = None, None
    try:
        os.chdir(d)
        if dest == "stringio":
            f = io.StringIO()
            _, wex = core.call(w.io.dump_poscar, cell, atoms, f, **kw)
            text = f.getvalue()
            if wex is None:
                res, rex = core.call(w.io.load_poscar, io.StringIO(text))
            return text, wex, res, rex
        if dest == "file":
            with open(p, "w", encoding="utf-8") as f:
                _, wex = core.call(w.io.dump_poscar, cell, atoms, f, **kw)
        elif dest == "cwd":
            _, wex = core.call(w.io.dump_poscar, cell, atoms, **kw)
        else:
            _, wex = core.call(w.io.dump_poscar, cell, atoms, p, **kw)
        if wex is not None:
            return "", wex, None, None
        with open(p, encoding="utf-8") as f:
            text = f.read()
        if dest == "file":
            with open(p, encoding="utf-8") as f:
                res, rex = core.call(w.io.load_poscar, f)
        elif dest == "cwd":
            res, rex = core.call(w.io.load_poscar)
        else:
            res, rex = core.call(w.io.load_poscar, d if dest == "dir" else p)
        return text, None, res, rex
    finally:
        os.chdir(old)


def execute(case):
    w = core.wulfric()
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        return refuse(w, case, d) if case["kind"] == "refuse" else chain(w, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def refuse(w, case, d):
    atoms = dict(names=["Fe1", case["name"] if case["what"] == "name" else "O1"], positions=[[0, 0, 0], [0.5, 0.5, 0.5]])
    kw = dict(mode=case["mode"]) if case["what"] == "mode" else {}
    _, wex, _, _ = transfer(w, case["dest"], d, np.eye(3), atoms, kw)
    return dict(kind="refuse", exc=core.exc_name(wex))


def chain(w, case, d):
    du, dp = case["du"], case["dp"]
    e = du + dp
    names = [s + (str(k + 1) if case["num"] else "") for k, s in enumerate(case["sp"])]
    atoms = dict(positions=_form(np.array(case["pos"]) / 10.0**dp, case["form"]))
    if case["have"] != "species":
        atoms["names"] = list(names) if case["have"] != "clash" else ["He%d" % k for k in range(len(names))]
    if case["have"] != "names":
        atoms["species"] = list(case["sp"])
    cell = _form(np.array(case["cell"]) / 10.0**du, case["form"])
    cur = (cell, atoms)
    rec = dict(kind="chain", du=du, dp=dp, cell=case["cell"], pos=case["pos"], species=case["sp"] if case["have"] != "names" else [],
               chars=[list(x) for x in names], comment=core.codes(case["comment"]), steps=[])
    for s in case["steps"]:
        dec = 8 if s["dec"] is None else s["dec"]
        ru = min(dec, case.get("rmax", 6))
        kw = dict(mode=s["mode"])
        if s["mode"] == "Direct" and not s["asmode"]:
            kw = {}
        if s["dec"] is not None:
            kw["decimals"] = dec
        if not s["dflt"]:
            kw["comment"] = case["comment"]
        before = copy.deepcopy(cur)
        text, wex, res, rex = transfer(w, s["dest"], d, cur[0], cur[1], kw)
        lines = text.split("\n")
        st = dict(mode=s["mode"], dec=dec, ru=ru, dflt=s["dflt"], first=core.codes(lines[0]), lines=[[]] + [x.split() for x in lines[1:]],
                  wexc=core.exc_name(wex), rexc=core.exc_name(rex), ok=False, rcell=[], rpos=[], rnames=[], gridok=False, rgrid=[],
                  rcomment=[], valid=False, kept=same(before, cur))
        if wex is None and rex is None:
            try:
                c, a, com = res
                c = np.array(c, dtype=float)
                p = np.array(a["positions"], dtype=float)
                st["rcell"], o1 = core.qmat(c, 10.0**ru, 1e-3)
                st["rpos"], o2 = core.qmat(p if s["mode"] == "Direct" else p @ c, 10.0**ru, 1e-2)
                st["ok"] = o1 and o2
                st["rgrid"], st["gridok"] = core.qmat(p, 10.0**dp, 1e-3)
                st["rnames"] = [str(x) for x in a["names"]]
                st["rcomment"] = core.codes(com)
                st["valid"] = core.call(w.crystal.validate_atoms, a)[1] is None
                if dec >= e:
                    cur = (c, a)
            except Exception:
                st["ok"] = False
        rec["steps"].append(st)
    return rec


def nontrivial(r):
    return r["kind"] == "chain" and len({tuple(x) for x in r["chars"]}) > 1 and len(r["steps"]) > 1
