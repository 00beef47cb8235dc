import core
import crys

ID = "C04"
LEVEL = "model_checking"
MODELS = [("MCClass", "MCClass.cfg")]
TRACE = "TraceClass"
RULE = "a crystal in one description; non-trivial when the lattice has several variations"
ASSUMPTIONS = [
    "the space group number computed by spglib itself for the same input is the reference",
    "within 1% of a border (exact equality apart) either side is accepted",
]


def cases(ctx):
    return [dict(x=c["x"], d=c["d"][0]) for c in crys.make_cases(ctx, ctx.pick(2200, 16000), max_atoms=16)]


def reference_sg(cell, atoms, tol=(1e-5, -1)):
    import spglib

    ds = spglib.get_symmetry_dataset(
        (cell, atoms["positions"], atoms["spglib_types"]), symprec=tol[0], angle_tolerance=tol[1]
    )
    return int(ds.number)


def execute(case):
    w, A0, cell, atoms = crys.setup(case["x"], case["d"])
    sd = w.get_spglib_data(cell, atoms)
    sym, e1 = core.call(w.crystal.hpkot_get_extended_bl_symbol, cell, atoms)
    var, e2 = core.call(w.crystal.sc_get_variation, cell, atoms)
    o = crys.outputs(w, A0, cell, atoms, convs=("HPKOT", "SC"), kinds=("conv",))
    return dict(
        sg=int(sd.space_group_number),
        ref=reference_sg(cell, atoms, crys.tolerances(w)),
        family=str(sd.crystal_family),
        centring=str(sd.centring_type),
        symbol=core.exc_name(e1) or str(sym),
        variation=core.exc_name(e2) or str(var),
        gram=case["x"]["gram"],
        grid=o[0]["grid"] and o[1]["grid"],
        hcell=o[0]["cell"],
        scell=o[1]["cell"],
    )


def nontrivial(r):
    return r["symbol"] not in ("cI1", "tP1", "oP1", "mP1")


def stats(cases, recs):
    import collections

    return dict(
        symbols=collections.Counter(r["symbol"] for r in recs if r),
        variations=collections.Counter(r["variation"] for r in recs if r),
    )
