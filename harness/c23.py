import copy
import io
import os
import pickle
import random

import numpy as np

import core
import crys
from c20 import same as identical
from c22 import SYM, same, spoil

ID = "C23"
LEVEL = "model_checking"
MODELS = [("MCFrame", "MCFrame_quick.cfg")]
MODELS_THOROUGH = [("MCFrame", "MCFrame_deep.cfg")]
TRACE = "TraceFrame"
RULE = "a history of calls of public functions on two crystals, with returned objects overwritten in between; non-trivial when something was overwritten"
ASSUMPTIONS = [
    "functions only: objects with documented state (Kpoints, PlotlyEngine) have properties of their own",
    "get_unique_names with repeated-only renames in place, get_spglib_types returns a list given by the caller (both documented)",
    "extra entries of atoms hold texts and numbers",
]
CASE_TIMEOUT = 120


def cases(ctx):
    out = []
    rng = ctx.rng
    for h in ctx.generate("GenFrame", "GenFrame.cfg", simulate=ctx.pick(800, 8000), depth=30):
        w = []
        while len(w) < 2:
            x = crys.base(rng, max_atoms=8)
            if len(x["pts"]) < 2:
                continue
            w.append(dict(x=x, d=dict(cellg=x.get("cellg", [[crys.N, 0, 0], [0, crys.N, 0], [0, 0, crys.N]]), pts=x["pts"], types=x["types"])))
        if rng.random() < 0.7:
            w[1] = twin(rng, w[0])
        out.append(dict(hist=h["hist"], worlds=w))
    return out


def twin(rng, a):
    """A crystal that is the first one but for a single thing."""
    b = copy.deepcopy(a)
    d, n = b["d"], len(a["d"]["pts"])
    b["twin"] = rng.choice(["types", "types", "rotated", "strained", "moved", "order", "symbols", "mirrored", "rows", "bit"])
    if b["twin"] == "types":
        t = rng.choice([[1] * n, list(range(1, n + 1)), [i % 2 + 1 for i in range(n)], d["types"][1:] + d["types"][:1]])
        d["types"] = t if t != d["types"] else [1] * (n - 1) + [2]
    elif b["twin"] == "rotated":
        d["rot"] = [[float(v) for v in r] for r in crys.xtal.random_rotation(rng)]
    elif b["twin"] == "order":
        d["pts"], d["types"] = d["pts"][::-1], d["types"][::-1]
    elif b["twin"] == "rows":
        d["cellg"] = [d["cellg"][i] for i in (1, 2, 0)]
    return b


def vary(b, cell, atoms):
    if b == "strained":
        cell = cell @ np.diag([1.0, 1.02, 0.97])
    elif b == "mirrored":
        cell = -cell
    elif b == "moved":
        atoms["positions"] = atoms["positions"] + np.array([[0.02, 0.01, 0.03]] + [[0.0] * 3] * (len(atoms["positions"]) - 1))
    elif b == "bit":
        cell = cell * (1 + 1e-4)
    return cell, atoms


def form_of(M, form):
    M = np.array(M, dtype=float)
    if form == "readonly":
        M.setflags(write=False)
    elif form == "fortran":
        M = np.asfortranarray(M)
    elif form == "list":
        M = M.tolist()
    elif form == "tuple":
        M = tuple(M.tolist()) if M.ndim == 1 else tuple(tuple(v) for v in M.tolist())
    return M


MOVE = [0.125, -0.25, 0.375]


def inputs(world, form, keys, changed=(0, 0)):
    """changed: another unit of length, another origin"""
    _, cell, atoms = crys.realise(world["x"], world["d"])
    cell, atoms = vary(world.get("twin"), cell, atoms)
    cell = cell * (2.0 if changed[0] else 1.0)
    atoms["positions"] = atoms["positions"] + (np.array(MOVE) if changed[1] else 0.0)
    types = [int(t) for t in atoms["spglib_types"]]
    lab = sorted(set(types))
    types = [lab.index(t) + 1 for t in types]
    a = dict(positions=form_of(atoms["positions"], form))
    if keys in ("types", "all"):
        a["spglib_types"] = types
    if keys in ("names", "all"):
        t0 = 1 if world.get("twin") == "symbols" else 0
        a["names"] = [SYM[(t - 1 + t0) % len(SYM)] + str(i % 2) for i, t in enumerate(types)]
    if keys in ("species", "all"):
        a["species"] = [SYM[(t - 1 + (world.get("twin") == "symbols")) % len(SYM)] for t in types]
    if keys == "all":
        a["extra"] = [float(t) for t in types]
    return form_of(cell, form), a


def plain(o):
    """A returned object as plain data."""
    n = type(o).__name__
    if n == "Kpoints":
        return dict(rcell=plain(o.rcell), names=list(o.hs_names), co=plain(o.hs_coordinates), la=dict(o.hs_labels), path=o.path_string, n=o.n,
                    pts=plain(o.points()), fl=plain(o.flat_points()), ticks=plain(o.ticks()))
    if n == "SpglibData":
        from c22 import ATTRS

        return {k: plain(getattr(o, k)) for k in ATTRS}
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, dict):
        return {k: plain(o[k]) for k in o}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return o


def overwrite(old, new):
    """The value new in the object old, where it can be written."""
    if isinstance(old, np.ndarray) and old.flags.writeable:
        old[...] = new
        return old
    if isinstance(old, list):
        for i in range(len(old)):
            old[i][:] = new[i]
        return old
    return new


VAR = ["CUB", "BCT2", "ORCF3", "RHL1", "MCLC4", "TRI2a"]
SYMB = ["cF2", "tI1", "oF1", "hR2", "mC1", "aP2"]
TEXTS = ["GAMMA-X|A-B", "A-B-C", "GAMMA-X-M-GAMMA-R-X|R-M", "X-Y", "A-B|B-A", "A_P-B"]


def number(t):
    """The last digits of a number depend on the order of the matrix in memory."""
    try:
        return float(t)
    except ValueError:
        return t


def run(w, f, cell, atoms, v, f2):
    """(function, arguments that must stay, arguments by name) of call f."""
    g, k, K = w.geometry, w.crystal, w.kpoints
    C = np.array(cell, dtype=float)
    n = len(atoms["positions"])
    h, _, conv = f.partition("-")
    fv = lambda r: form_of(r, f2)
    lst = [fv(r) for r in np.eye(3) + 0.1 * v]
    if f in ("get_reciprocal", "get_params", "get_scalar_products", "get_wigner_seitz_cell", "get_brillouin_zone"):
        return getattr(w.cell, f), (cell,), {}
    if f == "from_params":
        return w.cell.from_params, (2 + v, 3, 4.5, 90 + v, 80, 95), {}
    if f == "get_transformation_matrix":
        return w.cell.get_transformation_matrix, (cell, form_of(np.array([[1, v, 0], [0, 1, 0], [0, -1, 1]]) @ C, f2)), {}
    if f == "get_niggli":
        return w.cell.get_niggli, (cell,), {}
    if f == "get_niggli_wulfric":
        return w.cell.get_niggli, (cell,), dict(implementation="wulfric")
    if f == "get_lattice_points":
        return w.cell.get_lattice_points, (cell,), dict(range=[1, v % 3, 0], relative=True, flat=bool(v % 2))
    if f == "get_lattice_points_abs":
        return w.cell.get_lattice_points, (cell,), dict(range=(1, 1, v % 2))
    if f == "sc_get_example":
        return w.cell.sc_get_example, (VAR[v],), {}
    if f == "SC_cell":
        return [(w.cell.SC_CUB, (2,), {}), (w.cell.SC_BCT, (2.0, 3.0), {}), (w.cell.SC_ORCF, (2.0, 3.0, 4.0), {}), (w.cell.SC_RHL, (2.0, 70.0), {}),
                (w.cell.SC_MCLC, (2.0, 3.0, 4.0, 75.0), {}), (w.cell.SC_TRI, (2.0, 3.0, 4.0, 70.0, 80.0, 85.0), {})][v]
    if f in ("get_distance", "get_vector"):
        return getattr(k, f), (cell, atoms, v % n, (v + 1) % n), dict(R=fv([v, 0, -1]) if v % 2 else (v, 0, -1))
    if f == "get_atom_species":
        return k.get_atom_species, (["Fe1", "cl", "O", "X1", "Brom", "Na12"][v],), {}
    if f == "get_atoms_species":
        return k.get_atoms_species, (dict(names=["Fe1", "O2", "Cl%d" % v]),), {}
    if f == "get_unique_names":
        return k.get_unique_names, (dict(names=["Fe", "Fe", "O%d" % v]),), {}
    if f == "hpkot_get_example":
        return k.hpkot_get_example, (SYMB[v],), dict(with_inversion=bool(v % 2))
    if h == "conv":
        return k.get_conventional, (cell, atoms), dict(convention=conv)
    if h == "prim":
        return k.get_primitive, (cell, atoms), dict(convention=conv)
    if f == "symbol":
        return k.hpkot_get_extended_bl_symbol, (cell, atoms), {}
    if f == "variation":
        return k.sc_get_variation, (cell, atoms), {}
    if f == "validate_atoms":
        return k.validate_atoms, (atoms,), dict(required_keys=["positions"])
    if f == "shift_atoms":
        return k.shift_atoms, (copy.deepcopy(atoms),), dict(gravity_point=fv([0.1 * v, 0.5, 0.2]), cell=cell, gp_is_relative=bool(v % 2))
    if f in ("cure_negative", "ensure_000"):
        a = copy.deepcopy(atoms)
        a["positions"] = form_of(np.array(a["positions"], dtype=float) - 0.3 * v, f2 if f2 != "readonly" else "array")
        return getattr(k, f), (a,), {}
    if f == "get_volume":
        return g.get_volume, (cell,) if v % 2 else tuple(lst), {}
    if f == "get_angle":
        return g.get_angle, (lst[0], lst[1]), dict(radians=bool(v % 2))
    if f == "get_spherical":
        return g.get_spherical, (lst[v % 3],), {} if v < 3 else dict(polar_axis=fv([0, 1, 1]), radial_line_zero=fv([1, 1, 0]), in_degrees=False)
    if f == "parallelepiped_check":
        return g.parallelepiped_check, (1, 2, 3, 60 + 20 * v, 70, 80), {}
    if h == "path":
        c, _, t = conv.partition("-")
        return K.get_path_and_points, (cell, atoms), dict(convention=c, with_time_reversal=not t, relative=bool(v % 2))
    if f == "get_path_as_list":
        return K.get_path_as_list, (TEXTS[v],), {}
    if f == "get_path_as_string":
        return K.get_path_as_string, ([["A", "B"], ["C", "D%d" % v]],), {}
    if h == "kpoints":
        kw = dict(with_time_reversal=False) if conv == "notr" else dict(convention=conv)
        return w.Kpoints.from_crystal, (cell, atoms), kw
    if f == "Kpoints":
        return w.Kpoints, (cell,), dict(coordinates=fv(lst) if v % 2 else lst, names=["A", "B", "C"], labels=["a", "b", "c"], path=[["A", "B"], ["B", "C"]], n=3 + v)
    if f == "dump_poscar":

        def dump(c, a, **kw):
            s = io.StringIO()
            w.io.dump_poscar(c, a, s, comment="x", decimals=12, **kw)
            return [[number(t) for t in line.split()] for line in s.getvalue().split("\n")]

        a = atoms if "names" in atoms or "species" in atoms else dict(atoms, species=["Fe"] * n)
        return dump, (cell, a), dict(mode=["Direct", "Cartesian"][v % 2])
    if f == "load_poscar":
        text = "c\n1.5\n1 0 %d\n0 2 0\n0 1 3\nFe O\n1 1\nCart\n0 0 0\n0.5 0.5 1\n" % v

        def load(t):
            return w.io.load_poscar(io.StringIO(t))

        return load, (text,), {}
    if f == "compare":
        return w.compare_with_tolerance, (1.0, ["<", ">", "<=", ">=", "==", "!="][v], 1.0 + 1e-6 * v), {}
    if f == "get_spglib_data":
        return w.get_spglib_data, (cell, atoms), {}
    if f == "get_spglib_types":
        return w.get_spglib_types, ({x: atoms[x] for x in atoms if x != "spglib_types"} if len(atoms) > 2 else dict(names=["Fe1", "O"]),), {}
    if f in ("validate_spglib_data", "data-conv", "data-prim"):

        def withdata(c, a, **kw):
            d = w.get_spglib_data(c, a)
            if f == "validate_spglib_data":
                return w.validate_spglib_data(c, a, d)
            return (k.get_conventional if f == "data-conv" else k.get_primitive)(c, a, spglib_data=d, **kw)

        return withdata, (cell, atoms), {}
    if f in ("data-tol", "tol-conv", "tol-path"):

        def tolerant(c, a):
            p, q = [(1e-5, -1), (1e-3, -1), (1e-5, 0.5), (1e-6, -1), (1e-5, 2.0), (1e-4, 0.1)][v]
            d = w.get_spglib_data(c, a, spglib_symprec=p, spglib_angle_tolerance=q)
            if f == "data-tol":
                return d
            return k.get_conventional(c, a, spglib_data=d) if f == "tol-conv" else K.get_path_and_points(c, a, spglib_data=d)

        return tolerant, (cell, atoms), {}
    if f == "add_sugar":
        return w.add_sugar, (atoms,), {}
    if f == "remove_sugar":
        return w.remove_sugar, (w.add_sugar(copy.deepcopy(atoms)),), {}
    if f == "lepage":
        return w.lepage, (cell,), dict(give_all_results=bool(v % 2))
    raise core.MachineryError("unknown function " + f)


INPLACE = ("shift_atoms", "cure_negative", "ensure_000")


def one(w, f, cell, atoms, v, form):
    """result, exception name, arguments as they were."""
    fun, args, kw = run(w, f, cell, atoms, v, form)
    before = copy.deepcopy((args, kw))
    r, e = core.call(fun, *args, **kw)
    if f in INPLACE:
        r = args[0]
        ok = list(args[0]) == list(before[0][0]) and all(identical(args[0][x], before[0][0][x]) for x in args[0] if x != "positions") and identical(kw, before[1])
    else:
        ok = identical(before, (args, kw))
    return r, core.exc_name(e), ok


def tables(w):
    import wulfric.constants as c

    out = {}
    for n in sorted(dir(c)):
        o = getattr(c, n)
        if not n.startswith("__") and type(o).__name__ != "module" and not callable(o):
            out[n] = plain(o)
    return out


def forked(f):
    """f() in a new process, as plain data."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as p:
                p.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process ended")
    return pickle.loads(data)


def history(case):
    w = core.wulfric()
    t0 = copy.deepcopy(tables(w))
    form, keys, changed = ["array", "array"], ["types", "all"], [[0, 0], [0, 0]]
    inp = [inputs(case["worlds"][i], form[i], keys[i]) for i in range(2)]
    orig = copy.deepcopy(inp)
    live, out = [], []
    for op in case["hist"]:
        e = dict(op=op, exc="", ref="", same=True, args=True, tables=0, inputs=[0, 0])
        key, val = None, None
        if op["op"] == "spoil":
            for f, r in live:
                if type(r).__name__ == "Kpoints":
                    for x in ("rcell", "hs_names", "hs_coordinates", "hs_labels"):
                        spoil(getattr(r, x, None))
                    spoil(r.path)
                elif f in ("add_sugar", "remove_sugar"):
                    r.clear()  # the values are those of the caller
                elif type(r).__name__ != "SpglibData":
                    spoil(r)
            live = []
        elif op["op"] == "form":
            i = op["i"] - 1
            form[i], keys[i] = op["form"], op["keys"]
            inp[i] = inputs(case["worlds"][i], form[i], keys[i], changed[i])
            orig[i] = copy.deepcopy(inp[i])
        elif op["op"] == "change":
            i = op["i"] - 1
            p = 0 if op["what"] == "cell" else 1
            changed[i][p] = 1 - changed[i][p]
            c, a = inputs(case["worlds"][i], form[i], keys[i], changed[i])
            if p == 0:
                inp[i] = (overwrite(inp[i][0], c), inp[i][1])
            else:
                inp[i][1]["positions"] = overwrite(inp[i][1]["positions"], a["positions"])
            orig[i] = copy.deepcopy(inp[i])
        else:
            i = op["i"] - 1
            r, e["exc"], e["args"] = one(w, op["f"], inp[i][0], inp[i][1], op["v"], form[i])
            val = copy.deepcopy(plain(r)) if e["exc"] == "" else None
            if e["exc"] == "":
                live.append((op["f"], r))
            key = (op["f"], i, form[i], keys[i], op["v"], tuple(changed[i]))
        e["tables"] = 0 if tables(w) == t0 else 1
        e["inputs"] = [0 if identical(a, b) else 1 for a, b in zip(inp, orig)]
        out.append((e, key, val))
    return out


def execute(case):
    w = core.wulfric()  # imported, but no function of it is called in this process
    hist = forked(lambda: history(case))
    refs, out = {}, []
    for e, key, val in hist:
        if key is not None:
            if key not in refs:
                f, i, form, keys, v, changed = key

                def single():
                    # the reference always has arrays
                    c, a = inputs(case["worlds"][i], "array", keys, changed)
                    r, exc, _ = one(w, f, c, a, v, "array")
                    return (plain(r) if exc == "" else None), exc

                refs[key] = forked(single)
            e["ref"] = refs[key][1]
            e["same"] = same(val, refs[key][0])
        out.append(e)
    return dict(hist=out)


def nontrivial(r):
    return any(e["op"]["op"] == "spoil" for e in r["hist"])
