import itertools

import numpy as np

import core
import crys

ID = "C07"
LEVEL = "model_checking"
MODELS = [("MCKPoints", "MCKPoints.cfg")]
MODELS_THOROUGH = [("MCKPoints", "MCKPoints_deep.cfg")]
TRACE = "TraceKPoints"
RULE = "a crystal in one description, both conventions; non-trivial when some coordinate depends on the metric"
ASSUMPTIONS = [
    "coordinates are compared at a resolution of 4e-5 of a reciprocal lattice vector",
    "the conventional cell is the one get_conventional returns (its correctness is C01 and C03)",
    "within 1% of a border between variations the variation reported by the library is used",
    "the zone test (point not farther from the origin than from any reciprocal lattice point) is evaluated in floating point",
]

R = [np.array(v) for v in itertools.product(range(-3, 4), repeat=3) if any(v)]


def cases(ctx):
    return [
        dict(x=c["x"], d=c["d"][0], tr=ctx.rng.random() < 0.5)
        for c in crys.make_cases(ctx, ctx.pick(1000, 8000), max_atoms=12)
    ]


def zone_excess(k, B):
    """How much farther k is from the origin than from the nearest lattice point."""
    best = 0.0
    for v in R:
        g = v @ B
        best = max(best, (k @ k - (k - g) @ (k - g)) / (g @ g))
    return int(round(min(best, 1000) * 1e6))


def observe(x, d, tr, conv):
    w, A0, cell, atoms = crys.setup(x, d)
    sd = w.get_spglib_data(cell, atoms)
    f = w.crystal.hpkot_get_extended_bl_symbol if conv == "HPKOT" else w.crystal.sc_get_variation
    sym, e0 = core.call(f, cell, atoms)
    P = w.kpoints.get_path_and_points
    kw = dict(convention=conv, with_time_reversal=tr)
    a, e1 = core.call(P, cell, atoms, relative=False, **kw)
    r, e2 = core.call(P, cell, atoms, relative=True, **kw)
    k, e3 = core.call(w.Kpoints.from_crystal, cell, atoms, **kw)
    g, e4 = core.call(w.crystal.get_conventional, cell, atoms, convention=conv)
    pr, e5 = core.call(w.crystal.get_primitive, cell, atoms, convention=conv)
    e = e1 or e2 or e3 or e4 or e5
    rec = dict(
        id=conv.lower(), sym=core.exc_name(e0) or str(sym), exc=core.exc_name(e), grid=True,
        convg=[[0] * 3] * 3, points=[], kp=[], path="", kpath="", tr=tr, labels=True,
        slack=int(np.ceil(crys.slack(w, A0) * 1e6)),
        excs=[core.exc_name(v) for v in (e0, e1, e2, e3, e4, e5)], sg=int(sd.space_group_number),
    )
    if e is not None:
        return rec
    rec["convg"], rec["grid"] = crys.grid_cell(A0, g[0])
    B = np.linalg.inv(np.asarray(pr[0])).T
    rec["path"] = str(a[0])
    rec["rpath"] = str(r[0])
    names = list(a[1])
    rec["rnames"] = list(r[1])
    mic = lambda v: [int(t) for t in np.round(np.clip(np.nan_to_num(v, nan=999.0), -900, 900) * 1e6)]
    for n in names:
        ka = np.asarray(a[1][n], dtype=float) / (2 * np.pi)
        kr = np.asarray(r[1].get(n, [777] * 3), dtype=float)
        rec["points"].append(
            dict(n=n, abs=mic(A0 @ ka), rel=mic(kr), zone=zone_excess(ka, B), orig=bool(np.all(ka == 0)))
        )
    for n in k.hs_names:
        rec["kp"].append(dict(n=n, rel=mic(np.asarray(k.hs_coordinates[n], dtype=float))))
    rec["kpath"] = k.path_string
    rec["rc"] = core.qmat(np.asarray(k.rcell) @ np.asarray(cell).T / (2 * np.pi), 1, 1e-6)
    rec["labels"] = set(k.hs_labels) == set(k.hs_names)
    return rec


def execute(case):
    x, d = case["x"], case["d"]
    return dict(
        gram=x["gram"],
        cellg=d["cellg"],
        obs=[observe(x, d, case["tr"], c) for c in ("HPKOT", "SC")],
    )


def nontrivial(r):
    return any(o["sym"][:2] not in ("cP", "cF", "cI", "tP", "oP", "hP") for o in r["obs"])


def stats(cases, recs):
    import collections

    return dict(
        hpkot=collections.Counter(r["obs"][0]["sym"] for r in recs if r),
        sc=collections.Counter(r["obs"][1]["sym"] for r in recs if r),
    )
