import copy
import random

import numpy as np

import core
import crys

ID = "C22"
LEVEL = "model_checking"
MODELS = [("MCSnapshot", "MCSnapshot_quick.cfg")]
MODELS_THOROUGH = [("MCSnapshot", "MCSnapshot_deep.cfg")]
TRACE = "TraceSnapshot"
RULE = "a history of the Snapshot machine on one crystal; non-trivial when some call is refused"
ASSUMPTIONS = [
    "cells, positions and types of different data differ by clearly more than the tolerance of the comparison (5e-4 of the cell, in relative coordinates)",
    "the arrays that are attributes of the data are not written to by the caller",
]
CASE_TIMEOUT = 60
ATTRS = ["original_cell", "original_positions", "original_types", "spglib_version", "space_group_number", "crystal_family", "centring_type",
         "conventional_cell", "conventional_positions", "conventional_types", "primitive_cell", "primitive_positions", "primitive_types",
         "symprec", "angle_tolerance"]
SYM = ["Al", "Br", "Cs", "Fe", "Ni", "Os", "Xe"]


def cases(ctx):
    out = []
    rng = ctx.rng
    hs = ctx.generate("GenSnapshot", "GenSnapshot.cfg", simulate=ctx.pick(1800, 12000), depth=30)
    i = 0
    while len(out) < len(hs):
        x = crys.base(rng, max_atoms=8)
        if len(x["pts"]) < 2:
            continue
        d = dict(cellg=x.get("cellg", [[crys.N, 0, 0], [0, crys.N, 0], [0, 0, crys.N]]), pts=x["pts"], types=x["types"])
        out.append(dict(x=x, d=d, hist=hs[i]["hist"], seed=rng.randrange(10**6)))
        i += 1
    return out


def same(a, b):
    """Equality of results: numbers up to rounding, everything else exactly."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return False
        return all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return bool(abs(a - b) <= 1e-9 * (1 + abs(b)))
    return a == b


def snap(data):
    return {k: copy.deepcopy(getattr(data, k)) for k in ATTRS}


def kept(data, old):
    for k in ATTRS:
        v, e = core.call(getattr, data, k)
        if e is not None or type(v) is not type(old[k]) or not same(v, old[k]):
            return False
    return True


def spoil(o):
    """Overwrite everything in a returned object."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in "fiu":
            o[...] = 7
    elif isinstance(o, dict):
        for v in list(o.values()):
            spoil(v)
        o.clear()
    elif isinstance(o, list):
        for v in o:
            spoil(v)
        del o[:]
    elif isinstance(o, tuple):
        for v in o:
            spoil(v)


def build(vals, form, keys):
    cell, pos, types = vals
    cell, pos, types = cell.copy(), pos.copy(), list(types)
    if form != "array":
        cell, pos = cell.tolist(), pos.tolist()
    if form == "tuple":
        cell, pos = tuple(tuple(v) for v in cell), tuple(tuple(v) for v in pos)
    atoms = dict(positions=pos)
    if keys in ("types", "all"):
        atoms["spglib_types"] = types
    if keys == "tuple":
        atoms["spglib_types"] = tuple(types)
    if keys in ("names", "all"):
        atoms["names"] = [SYM[t - 1] + str(i) for i, t in enumerate(types)]
    if keys in ("species", "all"):
        atoms["species"] = [SYM[t - 1] for t in types]
    return cell, atoms


def mutate(cell, atoms, part, v):
    """Write the values in place (into the same objects) where this is possible."""
    if part == 1:
        if isinstance(cell, np.ndarray):
            cell[...] = v
            return cell
        if isinstance(cell, list):
            for i in range(3):
                cell[i][:] = v[i].tolist()
            return cell
        return tuple(tuple(r) for r in v.tolist())
    if part == 2:
        p = atoms["positions"]
        if isinstance(p, np.ndarray):
            p[...] = v
        elif isinstance(p, list):
            for i in range(len(p)):
                p[i][:] = v[i].tolist()
        else:
            atoms["positions"] = tuple(tuple(r) for r in v.tolist())
        return cell
    for k in ("spglib_types", "names", "species"):
        if k in atoms:
            n = list(v) if k == "spglib_types" else [SYM[t - 1] + (str(i) if k == "names" else "") for i, t in enumerate(v)]
            if isinstance(atoms[k], list):
                atoms[k][:] = n
            else:
                atoms[k] = tuple(n)
    return cell


def run(w, f, cell, atoms, kw):
    name, _, conv = f.partition("-")
    if name == "conv":
        return core.call(w.crystal.get_conventional, cell, atoms, convention=conv, **kw)
    if name == "prim":
        return core.call(w.crystal.get_primitive, cell, atoms, convention=conv, **kw)
    if name == "path":
        return core.call(w.kpoints.get_path_and_points, cell, atoms, convention=conv, **kw)
    if name == "symbol":
        return core.call(w.crystal.hpkot_get_extended_bl_symbol, cell, atoms, **kw)
    if name == "variation":
        return core.call(w.crystal.sc_get_variation, cell, atoms, **kw)
    k, e = core.call(w.Kpoints.from_crystal, cell, atoms, convention=conv, **kw)
    if e is not None:
        return None, e
    return core.call(lambda: dict(rcell=k.rcell, names=k.hs_names, coords=k.hs_coordinates, labels=k.hs_labels, path=k.path_string, pts=k.points()))


def other_cell(rng, cell):
    """Another cell: strained, or of the same shape, volume or lattice but not the same."""
    while True:
        k = rng.randrange(9)
        if k == 0:
            c = cell * 1.03
        elif k == 1:
            c = cell @ np.diag([1.0, 1.01, 0.98])
        elif k == 2:  # rotated by any angle
            q, r = np.linalg.qr(np.random.default_rng(rng.randrange(10**6)).normal(size=(3, 3)))
            c = cell @ (q * np.sign(np.linalg.det(q)))
        elif k == 3:  # rotated by a right angle
            c = cell @ np.array(rng.choice([[[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]]))
        elif k == 4:
            c = -cell
        elif k == 5:  # the same vectors in another order
            c = cell[rng.choice([[1, 0, 2], [1, 2, 0], [0, 2, 1]])]
        elif k == 6:  # another basis of the same lattice
            c = np.array([[1, 0, 0], [rng.choice([-1, 1]), 1, 0], [0, 0, 1]]) @ cell
        elif k == 7:  # one component of one vector
            c = cell.copy()
            c[rng.randrange(3), rng.randrange(3)] += rng.choice([1e-2, -1e-3]) * np.abs(cell).max()
        else:
            c = cell * 2
        if np.abs(c - cell).max() > 5e-4 * np.abs(cell).max():
            return c


def other_positions(rng, pos):
    n = len(pos)
    while True:
        p = pos.copy()
        k = rng.randrange(7)
        if k <= 1:
            p[rng.randrange(n)] += [0.03, 0.02, -0.041]
        elif k == 2:  # the same atom in another cell
            p[rng.randrange(n), rng.randrange(3)] += rng.choice([-1, 1, 2])
        elif k == 3:  # in another order
            i = rng.randrange(n)
            p = np.roll(p, 1, axis=0) if rng.random() < 0.5 else p[[j for j in range(n) if j != i] + [i]]
        elif k == 4:  # all moved together
            p = p + [0.125, -0.25, 0.0625]
        elif k == 5:
            p = -p
        else:
            p[rng.randrange(n), rng.randrange(3)] += 1e-3
        if np.abs(p - pos).max() > 5e-4:
            return p


def other_types(rng, types, lab):
    n = len(types)
    k = rng.randrange(3)
    t2 = types[::-1] if k == 0 else [len(lab) + 1 - t for t in types] if k == 1 else types[1:] + types[:1]
    if t2 == types:
        t2 = list(types)
        t2[-1] = max(types) + 1 if len(lab) == 1 else types[0] % len(lab) + 1
    if t2 == types:
        t2[0] = types[0] % len(lab) + 1
    return t2


def execute(case):
    w = core.wulfric()
    rng = random.Random(case["seed"])
    _, cell, atoms = crys.realise(case["x"], case["d"])
    pos, types = np.asarray(atoms["positions"], dtype=float), atoms["spglib_types"]
    lab = sorted(set(types))
    types = [lab.index(t) + 1 for t in types]
    n = len(types)
    cells = [cell, other_cell(rng, cell)]
    pos2 = other_positions(rng, pos)
    t2 = other_types(rng, types, lab)
    var = [cells, [pos, pos2], [types, t2]]
    # names and species number the types in alphabetical order, without gaps
    var[2] = [[sorted(set(t)).index(v) + 1 for v in t] for t in var[2]]
    if var[2][0] == var[2][1]:
        var[2][1] = [v + 1 for v in var[2][0]] if n == 1 else [1] + [2] * (n - 1)
        if var[2][0] == var[2][1]:
            var[2][1] = [2] + [1] * (n - 1)
    cur, form, keys = [1, 1, 1], "array", "types"
    vals = lambda: [var[p][cur[p] - 1] for p in range(3)]
    c, a = build(vals(), form, keys)
    datas, olds, results, refs, hist = [], [], [], {}, []
    for op in case["hist"]:
        e = dict(op=op, exc="", ref="", same=True, kept=True, other=[])
        o = op["op"]
        if o == "set":
            cur[op["part"] - 1] = op["v"]
            c = mutate(c, a, op["part"], vals()[op["part"] - 1])
        elif o == "form":
            form, keys = op["form"], op["keys"]
            c, a = build(vals(), form, keys)
        elif o == "data":
            d, x = core.call(w.get_spglib_data, c, a) if rng.random() < 0.7 else core.call(w.SpglibData, c, a)
            e["exc"] = core.exc_name(x)
            if x is None:
                v = vals()
                s, x2 = core.call(snap, d)
                e["same"] = x2 is None and same(s["original_cell"], v[0]) and same(s["original_positions"], v[1]) and list(s["original_types"]) == list(v[2])
                datas.append(d)
                olds.append(s)
        elif o == "spoil":
            for r in results:
                spoil(r)
            results = []
        elif o == "assign":
            if datas:
                d = datas[(op["d"] - 1) % len(datas)]
                k = rng.choice(ATTRS)
                _, x1 = core.call(setattr, d, k, rng.choice([None, 1, np.eye(3)]))
                _, x2 = core.call(delattr, d, k)
                e["same"] = isinstance(x1, AttributeError) and isinstance(x2, AttributeError)
        else:
            if op["d"] == 9:
                kw = dict(spglib_data=rng.choice([{}, 1, "x", [], object(), dict(conventional_cell=np.eye(3)), (1, 2), w.add_sugar(dict(symprec=1))]))
            elif op["d"] == 0 or not datas:
                kw = {}
            else:
                kw = dict(spglib_data=datas[(op["d"] - 1) % len(datas)])
            key = (op["f"], tuple(cur), form, keys)
            if key not in refs:
                r, x = run(w, op["f"], *build(vals(), form, keys), {})
                refs[key] = (copy.deepcopy(r), core.exc_name(x))
            r, x = run(w, op["f"], c, a, kw)
            e["exc"], e["ref"] = core.exc_name(x), refs[key][1]
            if datas and rng.random() < 0.2:  # the same crystal with one atom more or less
                v = vals()
                for p, t in ((v[1][:-1], v[2][:-1]), (v[1][1:], v[2][1:]), (np.vstack([v[1], [0.377, 0.211, 0.619]]), v[2] + [v[2][0]])):
                    _, x1 = run(w, op["f"], *build((v[0], p, t), form, keys), dict(spglib_data=rng.choice(datas)))
                    e["other"].append(core.exc_name(x1))
            if x is None:
                e["same"] = same(r, refs[key][0])
                results.append(r)
        e["kept"] = all(kept(d, s) for d, s in zip(datas, olds))
        hist.append(e)
    return dict(hist=hist)


def nontrivial(r):
    return any(e["exc"] == "ValueError" for e in r["hist"])
