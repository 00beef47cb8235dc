import copy
import random

import numpy as np

import c14
import core

ID = "C29"
LEVEL = "model_checking"
MODELS = [("MCRefuse", "MCRefuse.cfg"), ("MCValidate", "MCValidate.cfg")]
TRACE = "TraceRefuse"
RULE = "a request to one function: a dictionary of atoms, a cell, coordinates, most of them with at most one fault; non-trivial when it is refused"
ASSUMPTIONS = [
    "cells with any non-zero volume and at least one atom are crystals; atoms of accepted requests are on different places",
    "other keys of the atoms are sequences (sets are not judged)",
]
CASE_TIMEOUT = 60
CELL = [[1.4, -2.3, -4.6], [-4.8, 3.1, 4.1], [1.1, 2.3, 0.4]]


def cases(ctx):
    out = ctx.generate("GenRefuse", "GenRefuse.cfg", simulate=ctx.pick(2500, 30000), depth=12)
    ctx.rng.shuffle(out)
    for i, c in enumerate(out):
        c["seed"] = i
    return out


def cell_of(kind, form, rng):
    x = np.array(CELL) * rng.choice([1, 1.7, 0.8])
    base = x.copy()
    i, j = rng.randrange(3), rng.randrange(3)
    if kind in ("nan", "inf"):
        x[i, j] = np.nan if kind == "nan" else rng.choice([np.inf, -np.inf])
    elif kind == "flat":
        x = np.array([[rng.randint(-5, 5) + (7 if i == j else 0) for i in range(3)] for j in range(3)]) * rng.choice([1.0, 0.1, 0.37])
        x[i] = x[(i + 1) % 3] * rng.choice([1, 2, -1]) if rng.random() < 0.7 else 0
    elif kind == "zero":
        x = np.zeros((3, 3))
    elif kind != "good":
        return dict(two=x[:2], vector=x[0], ragged=[[1.0, 2.0], [1.0, 2.0, 3.0], [4.0]], text="cell", none=None, four=np.eye(4), stack=x[None],
                    words=[["a", "b", "c"]] * 3, number=5)[kind], base
    return (x if form == 1 else x.tolist() if form == 2 else tuple(map(tuple, x.tolist()))), base


def functions(w):
    c, k = w.crystal, w.kpoints

    def conv(g, n):
        return lambda cell, atoms, **kw: g(cell, atoms, convention=n, **kw)

    def repeated(cell, atoms, **kw):
        # writes into the names, by its documentation: it gets a copy, names in a list
        atoms = copy.deepcopy(atoms)
        if isinstance(atoms.get("names"), tuple):
            atoms["names"] = list(atoms["names"])
        return c.get_unique_names(atoms, strategy="repeated-only")

    f = {
        "symbol": c.hpkot_get_extended_bl_symbol, "variation": c.sc_get_variation,
        "data": lambda cell, atoms, **kw: w.get_spglib_data(cell, atoms), "object": lambda cell, atoms, **kw: w.SpglibData(cell, atoms),
        "types": lambda cell, atoms, **kw: w.get_spglib_types(atoms), "names": lambda cell, atoms, **kw: c.get_unique_names(atoms),
        "repeated": repeated,
        "species": lambda cell, atoms, **kw: c.get_atoms_species(atoms),
    }
    for n in ("hpkot", "sc", "spglib"):
        f["conv-" + n], f["prim-" + n] = conv(c.get_conventional, n), conv(c.get_primitive, n)
    for n in ("hpkot", "sc"):
        f["path-" + n], f["kpoints-" + n] = conv(k.get_path_and_points, n), conv(w.Kpoints.from_crystal, n)
    return f


def execute(case):
    w = core.wulfric()
    rng = random.Random(case["seed"])
    d, num = case["d"], case["num"]
    for e in d:
        if e["key"] == "positions" and e["shape"] == [-1] and e["kind"] == "seq" and e["n"] == 0:
            e["n"], e["items"], e["shape"] = 1, ["o"], [1, 2]
        if e["key"] in ("labels", "_private", "Names", "") and e["form"] == 4:
            e["form"] = 1
    atoms = {e["key"]: c14.value(e) for e in d}
    e = next((e for e in d if e["key"] == "positions"), None)
    if e and e["kind"] == "seq" and e["shape"] == [e["n"], 3] and e["n"] > 0:
        p = np.array(atoms["positions"], dtype=float)
        # places that are no lattice of their own
        p = p + 0.01 * (np.arange(p.size).reshape(p.shape) ** 2 % 7)
        i, j = rng.randrange(len(p)), rng.randrange(3)
        near_positions = p.tolist()
        if num in ("nan", "inf"):
            p[i, j] = np.nan if num == "nan" else np.inf
        atoms["positions"] = p if type(atoms["positions"]) is np.ndarray and num != "none" else p.tolist()
        if num == "none":
            atoms["positions"][i][j] = None
    else:
        num = "good"
    cell, base = cell_of(case["cell"], case["form"], rng)
    kw = {}
    if case["given"] and case["f"].split("-")[0] in ("conv", "prim", "path", "kpoints", "symbol", "variation"):
        # data of the crystal next to the request: the same one where that exists
        near = dict(atoms) if num == "good" else {k: v for k, v in atoms.items() if k != "positions"}
        if num != "good":
            near["positions"] = near_positions
        kw["spglib_data"], e1 = core.call(w.get_spglib_data, base, near)
        if e1 is not None:
            kw["spglib_data"] = w.get_spglib_data(CELL, dict(positions=[[0.0, 0.1, 0.2]], spglib_types=[1]))
    ref = {k: v if not isinstance(v, (list, tuple, np.ndarray, dict, set, str)) else copy.deepcopy(v) for k, v in atoms.items()}
    _, e = core.call(functions(w)[case["f"]], cell, atoms, **kw)
    raised = next((t.__name__ for t in (ValueError, TypeError, RuntimeError) if isinstance(e, t)), core.exc_name(e))
    if num == "good":
        kept = list(atoms) == list(ref) and all(c14.same(atoms[k], ref[k]) for k in ref)
    else:
        kept = list(atoms) == list(ref)
    return dict(f=case["f"], cell=case["cell"], num=num, given=bool(kw), raised=raised, kept=kept,
                d=[dict(key=e["key"], kind=e["kind"], n=e["n"], items=e["items"], shape=e["shape"]) for e in d])


def nontrivial(r):
    return r["raised"] != ""


def stats(cases, recs):
    import collections

    return dict(outcomes=collections.Counter(r["raised"] or "accepted" for r in recs if r))
