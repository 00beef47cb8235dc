import ast
import contextlib
import copy
import io
import os
import random
import tempfile

import numpy as np

import c22
import core

ID = "C28"
LEVEL = "model_checking"
MODELS = [("MCOptions", "MCOptions_quick.cfg")]
MODELS_THOROUGH = [("MCOptions", "MCOptions_deep.cfg")]
TRACE = "TraceOptions"
RULE = "a function with sixteen ways to call it on the same data; non-trivial when two calls are written differently and mean the same"
ASSUMPTIONS = [
    "the table of functions, documented defaults and words in spec/Options.tla",
    "data for which another value of an option marked so gives another result (a triclinic crystal without inversion, generic vectors)",
]
CASE_TIMEOUT = 120
# triclinic cells whose standard forms in the three conventions are different
CELLS = [
    [[1.4, -2.3, -4.6], [-4.8, 3.1, 4.1], [1.1, 2.3, 0.4]],
    [[4.4, 3.2, -5.0], [3.6, -4.7, 2.3], [-3.2, 3.6, 0.4]],
    [[3.9, -2.7, 1.2], [-4.2, 3.3, 2.9], [-2.6, 3.8, -4.4]],
    [[-1.6, -3.5, -0.5], [3.0, -2.7, -4.5], [-1.0, -3.0, -4.1]],
    [[3.2, -0.2, -2.7], [3.0, 4.2, -2.3], [0.4, -0.6, 4.3]],
    [[-4.3, 3.4, -4.3], [-1.6, -0.7, 4.7], [0.6, -2.4, -2.6]],
]
KP = {"add_hs_point", "ticks", "points", "flat_points", "hs_table"}
HP_BOTH = "cP1 cP2 cF1 cF2 cI1 tP1 tI1 tI2 oP1 oF1 oF3 oI1 oI3 oC1 oC2 hP1 hP2 hR1 hR2 mP1 mC1 mC2 mC3 aP2 aP3".split()


BORDER = [(0, 0)] + [(1, x) for x in (-0.5, 0.5, 5e-5, -5e-5, 3e-4, -3e-4, 0.02, 3)] + [(2, x) for x in (1e-3, 5e-9, 5e-8, 1e-6, -1e-3, 0.0)] \
    + [(3, x) for x in (0.5, -0.5, 5e-5, -5e-5, 3e-4, -3e-4, 3)] + [(4, x) for x in (0.5, 5e-5, 3e-4, 1e-3, 0.05)]
PAIRS = [(y, s * e) for y in (1.0, -3.0, 0.0, 100.0) for s in (1, -1) for e in (0, 3e-9, 3e-8, 3e-6, 3e-5, 2e-4, 5e-4, 3e-3, 0.05, 1)]
# several data at once
MANY = dict(get_atom_species=7, get_atoms_species=3, validate_atoms=4, parallelepiped_check=len(BORDER), compare_with_tolerance=len(PAIRS),
            get_niggli=5, shift_atoms=4, get_spherical=4, get_angle=3, SC_TRI=3)


def cases(ctx):
    out = ctx.generate("GenOptions", "GenOptions.cfg", simulate=ctx.pick(1000, 9000), depth=20)
    seen = {}
    slow = [c for c in out if c["f"] in ("plot_wigner_seitz_cell", "plot_brillouin_zone")]
    for c in slow[ctx.pick(12, 400):]:
        out.remove(c)
    for c in slow:
        c["calls"] = c["calls"][:8]
    for c in out:
        c["seed"] = ctx.rng.randrange(10**6)
        seen[c["f"]] = seen.get(c["f"], 0) + 1
    # functions that the simulation drew too rarely are called again on other data
    for c in list(out):
        if seen[c["f"]] < 12 and c not in slow:
            for _ in range(4):
                out.append(dict(c, seed=ctx.rng.randrange(10**6)))
    return out


def nontrivial(r):
    return any(c["pos"] for c in r["calls"]) and len({c["cls"] for c in r["calls"]}) < len(r["calls"])


def crystal(rng):
    sc = rng.choice([1.0, 0.7, 1.9])
    Q, _ = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    if np.linalg.det(Q) < 0:
        Q = -Q
    cell = sc * np.array(rng.choice(CELLS)) @ Q
    pos = np.array([[0.1, 0.2, 0.3], [0.45, 0.61, 0.77], [0.83, 0.37, 0.12]])
    pos = pos + np.array([[rng.uniform(-0.02, 0.02) for _ in range(3)] for _ in range(3)])
    el = rng.sample(["Fe", "O", "Cr", "Br", "Ni"], 2)
    if rng.random() < 0.5:
        names = [el[0] + "1", el[1], el[1]]
    else:
        names = [el[0] + "1", el[1] + "2", el[1] + "2"]
    return cell, dict(names=names, species=[el[0], el[1], el[1]], positions=pos)


def data(w, f, rng, v0=0):
    """Objects for the required parameters of the function, by name."""
    cell, atoms = crystal(rng)
    v = [[round(rng.uniform(-3, 3), 3) + 0.0004 for _ in range(3)] for _ in range(4)]
    d = dict(cell=cell, atoms=atoms, atom1=0, atom2=rng.choice([1, 2]), v1=v[0], v2=v[1], vector=v[2],
             points=np.array(v), start_point=v[0], end_point=v[1], coordinate=[0.1, -0.2, 0.3], name="Q")
    d["other"] = crystal(rng)
    d["rcell"] = cell + 0.0
    d["coordinates"] = [[0.0, 0.0, 0.0], [0.5, 0.1, 0.0], [0.2, 0.5, 0.3]]
    d["names"] = ["A", "B", "C"]
    if f == "get_niggli":
        # two lengths that are equal with a tolerance of 1e-2 and different with 1e-5
        a = rng.uniform(2, 6)
        x = rng.choice([1e-3, 2e-3, 5e-4])
        B = np.array([[a * (1 + x), 0, 0], [0.31 * a, 0.951 * a, 0], [0.3 * a, 0.0, 1.3 * a]])
        d["cell"] = np.array([[1, 0, 0], [2, 1, 0], [-1, 3, 1]]) @ B if rng.random() < 0.4 else B
    if f in ("plot_wigner_seitz_cell", "plot_brillouin_zone"):
        d["cell"] = np.diag([rng.uniform(1, 3) for _ in range(3)])  # few faces, drawing is slow
    if f == "get_atom_species":
        d["name"] = ["Cr12", "Fe_a", "x", "??", "br1", "CRO3", ""][v0]
    if f == "get_atoms_species":
        d["atoms"] = dict(names=[["Cr1", "O2"], ["Cr1", "??"], ["1", "2"]][v0])
    if f == "validate_atoms":
        d["atoms"] = [atoms, dict(atoms, species=["Fe"]), dict(atoms, spglib_types=5), dict(positions=atoms["positions"])][v0]
    if f == "hpkot_get_example":
        d["extended_bl_symbol"] = rng.choice(HP_BOTH)
    if f in ("SC_TRI", "parallelepiped_check"):
        d.update(a=2.5, b=3.1, c=4.3, alpha=71.0 + rng.randrange(5), beta=82.5, gamma=77.3)
        if f == "parallelepiped_check":
            k, x = BORDER[v0]
            if k == 1:
                d["alpha"] = d["beta"] + d["gamma"] + x
            elif k == 2:
                d["a"] = x
            elif k == 3:
                d["alpha"], d["beta"], d["gamma"] = 120.0, 120.0, 120.0 + x
            elif k == 4:
                d["gamma"] = x
    if f in ("plot_kpath", "plot_kpoints"):
        d["kp"] = w.Kpoints(d["rcell"], coordinates=d["coordinates"], names=d["names"], path="A-B", n=3)
    if f == "compare_with_tolerance":
        y, e = PAIRS[v0]
        d.update(x=y + e * max(1, abs(y)), y=y)
    return d


def value(w, f, p, t, d):
    """The object that a text stands for."""
    if t == "$data":
        return w.get_spglib_data(*copy.deepcopy((d["cell"], d["atoms"])))
    if t.startswith("$"):
        return copy.deepcopy(d[t[1:]])
    if p in ("convention", "strategy", "implementation", "mode", "legend_position", "condition", "file_object", "vector_label",
             "output_name", "color", "colors", "comment", "legend_label", "legend_group", "label"):
        return None if t == "None" else t
    return ast.literal_eval(t)


def plain(o, known):
    """Numbers, texts and containers only."""
    if isinstance(o, dict):
        return {str(k): plain(v, known) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v, known) for v in o]
    if isinstance(o, np.ndarray):
        return plain(o.tolist(), known)
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    k = type(o).__name__
    if k == "Kpoints":
        return dict(rcell=plain(o.rcell, known), names=o.hs_names, labels=o.hs_labels, coordinates=plain(o.hs_coordinates, known), path=o.path, n=o.n,
                    ticks=plain(o.ticks(), known) if len(o.path) else None)
    if k == "SpglibData":
        return {a: plain(getattr(o, a), known) for a in c22.ATTRS}
    return k


def figure(fig, given):
    """What is in a figure; names of the groups that nobody gave are random."""
    j = fig.to_plotly_json()
    groups = []
    for t in j["data"]:
        g = t.get("legendgroup")
        if g not in (None, "grp"):
            if g not in groups:
                groups.append(g)
            t["legendgroup"] = groups.index(g)
    lay = {k: v for k, v in j["layout"].items() if k != "template"}
    return plain(dict(data=list(j["data"]), layout=lay), given)


def one(w, f, names, c, seed, v0):
    """Result (in plain form) and exception of one call on fresh data."""
    rng = random.Random(seed)
    np.random.seed(seed)
    random.seed(seed)
    d = data(w, f, rng, v0)
    pos = [value(w, f, names[i], t, d) for i, t in enumerate(c["pos"])]
    kw = {p: value(w, f, p, t, d) for p, t in c["kw"]}
    if f in ("show", "save") or f.startswith("plot_"):
        eng = w.PlotlyEngine(rows=2, cols=2, _sphinx_gallery_fix=True)
        eng.plot_line([0, 0, 0], [1, 2, 3], legend_label="first")
    if f in KP:
        kp = w.Kpoints(d["rcell"], coordinates=d["coordinates"], names=d["names"], path="A-B|B-C", n=4)
        r, e = core.call(getattr(kp, f), *pos, **kw)
        return dict(r=plain(r, d), kp=plain(kp, d)), e
    if f == "from_crystal":
        r, e = core.call(w.Kpoints.from_crystal, *pos, **kw)
        return plain(r, d), e
    if f == "PlotlyEngine":
        eng, e = core.call(w.PlotlyEngine, *pos, **kw)
        return (None if e else sorted(k for k in eng.fig.to_plotly_json()["layout"] if k.startswith("scene"))), e
    if f == "save":
        kw["kwargs_write_html"] = dict(include_plotlyjs=False)
        r, e = core.call(eng.save, *pos, **kw)
        return dict(files={n: os.path.getsize(n) > 100 for n in sorted(os.listdir("."))}, fig=figure(eng.fig, d)), e
    if f == "show":
        r, e = core.call(eng.show, *pos, **kw)
        return figure(eng.fig, d), e
    if f.startswith("plot_"):
        r, e = core.call(getattr(eng, f), *pos, **kw)
        return dict(fig=figure(eng.fig, d), ranges=plain({str(k): v for k, v in eng.x_range.items()}, d)), e
    if f in ("dump_poscar", "load_poscar"):
        if f == "load_poscar":
            for n, (cell, atoms) in (("POSCAR", (d["cell"], d["atoms"])), ("other", d["other"])):
                with open(n, "w") as h:
                    h.write(f"{n}\n1.0\n")
                    h.writelines(" ".join(map(repr, map(float, v))) + "\n" for v in cell)
                    h.write(" ".join(atoms["species"][:2]) + "\n1 2\nDirect\n")
                    h.writelines(" ".join(map(repr, map(float, v))) + "\n" for v in atoms["positions"])
        r, e = core.call(getattr(w.io, f), *pos, **kw)
        if f == "load_poscar":
            return plain(r, d), e
        files = {}
        for n in sorted(os.listdir(".")):
            with open(n) as h:
                t = h.read().split("\n")
            if t[0].startswith("Written by wulfric"):
                t[0] = "Written by wulfric"
            files[n] = t
        return files, e
    g = None
    for m in (w, w.cell, w.crystal, w.geometry, w.kpoints):
        g = g or getattr(m, f, None)
    r, e = core.call(g, *pos, **kw)
    return dict(r=plain(r, d), args=[plain(x, d) for x in pos + [kw[k] for k in sorted(kw)] if isinstance(x, dict)]), e


def execute(case):
    w = core.wulfric()
    f = case["f"]
    calls, known = [], []
    cwd = os.getcwd()
    for c in case["calls"]:
        with tempfile.TemporaryDirectory(prefix="wv_c28_") as t:
            os.chdir(t)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = []
                    for i in reversed(range(MANY.get(f, 1))):
                        x, e = one(w, f, case["pars"], c, case["seed"] + i, i)
                        r.append([core.exc_name(e), x])
            finally:
                os.chdir(cwd)
        for k, y in enumerate(known):
            if c22.same(r, y):
                break
        else:
            k = len(known)
            known.append(r)
        calls.append(dict(pos=c["pos"], kw=[list(p) for p in c["kw"]], exc=core.exc_name(e), cls=k))
    return dict(f=f, calls=calls)
