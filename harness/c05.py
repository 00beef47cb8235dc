import numpy as np

import core
import crys

ID = "C05"
LEVEL = "model_checking"
MODELS = [("MCDescribe", "MCDescribe.cfg")]
MODELS_THOROUGH = [("MCDescribe", "MCDescribe_deep.cfg")]
TRACE = "TraceInvar"
RULE = "a pair of descriptions of one crystal, produced by the Describe machine; non-trivial when the two cells differ"
ASSUMPTIONS = [
    "metrics exactly on (or within 1% of) a border between variations are excluded: there rounding errors choose the cell",
    "k-points are compared through their scalar products at a resolution of 1e-5 of the unit cell's scale",
]


def cases(ctx):
    out = []
    for c in crys.make_cases(ctx, ctx.pick(600, 8000), per=2, max_atoms=12):
        names = None
        out.append(dict(x=c["x"], a=c["d"][0], b=c["d"][1], relabel=ctx.rng.random() < 0.3))
    return out


def observe(x, d, relabel=False):
    w, A0, cell, atoms = crys.setup(x, d)
    if relabel:  # other labels for the same types
        atoms["spglib_types"] = [9 - t for t in atoms["spglib_types"]]
    sd = w.get_spglib_data(cell, atoms)
    sym, e1 = core.call(w.crystal.hpkot_get_extended_bl_symbol, cell, atoms)
    var, e2 = core.call(w.crystal.sc_get_variation, cell, atoms)
    outs = crys.outputs(w, A0, cell, atoms)
    if relabel:
        for o in outs:
            o["at"] = [[p, 9 - t] for p, t in o["at"]]
    paths = []
    for c in ("HPKOT", "SC"):
        r, e = core.call(
            w.kpoints.get_path_and_points, cell, atoms, convention=c, relative=False,
            with_time_reversal=False,
        )
        o = dict(id=c.lower(), exc=core.exc_name(e), path="", names=[], dots=[])
        if e is None:
            path, pts = r
            n = sorted(pts)
            K = np.array([pts[k] for k in n]) * x["scale"] / (2 * np.pi)
            o.update(path=path, names=n, dots=core.qmat(K @ K.T, 1e5)[0])
        paths.append(o)
    return A0, dict(
        sg=int(sd.space_group_number),
        symbol=core.exc_name(e1) or str(sym),
        variation=core.exc_name(e2) or str(var),
        outs=outs,
        paths=paths,
    )


def execute(case):
    x = case["x"]
    A0, a = observe(x, case["a"])
    _, b = observe(x, case["b"], case["relabel"])
    # standardise the standardised crystal
    again = []
    w, _, cell, atoms = crys.setup(x, case["a"])
    for c in crys.CONVS:
        for k, f in (("conv", w.crystal.get_conventional), ("prim", w.crystal.get_primitive)):
            r, e = core.call(f, cell, atoms, convention=c)
            if e is not None:
                again.append(dict(id=f"{c.lower()}-{k}", exc="", grid=False, cell=[[0] * 3] * 3, at=[], keys=True))
                continue
            r, e = core.call(f, r[0], r[1], convention=c)
            again.append(crys.out_rec(f"{c.lower()}-{k}", A0, r, e))
    return dict(gram=x["gram"], a=a, b=b, again=again, diff=case["a"]["cellg"] != case["b"]["cellg"])


def nontrivial(r):
    return r["diff"]
