import numpy as np

import core
import crys

ID = "C08"
LEVEL = "model_checking"
MODELS = [("MCClass", "MCClass.cfg")]
TRACE = "TracePath"
RULE = "a crystal in one description, both conventions, with and without time reversal; non-trivial when it has no inversion symmetry"
ASSUMPTIONS = [
    "within 1% of a border between variations the path of either side is accepted",
    "the space group is that reported by spglib for the same input",
]


def cases(ctx):
    return [dict(x=c["x"], d=c["d"][0]) for c in crys.make_cases(ctx, ctx.pick(1100, 9000), max_atoms=16)]


def observe(w, cell, atoms, conv, tr, how):
    names = w.constants.HS_PLOT_NAMES
    kw = dict(convention=conv)
    if tr is not None:
        kw["with_time_reversal"] = tr
    o = dict(id=conv.lower(), tr=tr is None or tr, how=how, exc="", path=[], names=[], pts=[], unlabelled=[])
    if how == "function":
        r, e = core.call(w.kpoints.get_path_and_points, cell, atoms, **kw)
        if e is None:
            path, pts = r
            path = str(path)
            pts = {k: np.asarray(v, dtype=float) for k, v in pts.items()}
            o["unlabelled"] = [k for k in pts if not isinstance(names.get(k), str) or not names[k]]
    else:
        k, e = core.call(w.Kpoints.from_crystal, cell, atoms, **kw)
        if e is None:
            path = k.path_string
            pts = {n: np.asarray(k.hs_coordinates[n], dtype=float) for n in k.hs_names}
            o["unlabelled"] = [n for n in pts if k.hs_labels.get(n) != names.get(n, 0)]
    o["exc"] = core.exc_name(e)
    if e is None:
        o["path"] = [s.split("-") for s in path.split("|")]
        o["names"] = list(pts)
        o["pts"] = [[int(t) for t in np.round(np.clip(np.nan_to_num(v, nan=999), -900, 900) * 1e6)] for v in pts.values()]
    return o


def execute(case):
    w, A0, cell, atoms = crys.setup(case["x"], case["d"])
    sd = w.get_spglib_data(cell, atoms)
    import c04

    g = crys.outputs(w, A0, cell, atoms, convs=("HPKOT", "SC"), kinds=("conv",))
    obs = []
    for conv in ("HPKOT", "SC"):
        for tr in (True, False, None):
            for how in ("function", "class"):
                if tr is None and how == "class":
                    continue
                obs.append(observe(w, cell, atoms, conv, tr, how))
    return dict(
        sg=c04.reference_sg(cell, atoms, crys.tolerances(w)),
        gram=case["x"]["gram"],
        grid=g[0]["grid"] and g[1]["grid"] and not g[0]["exc"] and not g[1]["exc"],
        hcell=g[0]["cell"],
        scell=g[1]["cell"],
        obs=obs,
    )


def nontrivial(r):
    return any(len(o["names"]) > 2 and o["names"][-1].endswith("_P") for o in r["obs"])
