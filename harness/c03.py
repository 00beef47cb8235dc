import core
import crys
import xtal

ID = "C03"
LEVEL = "model_checking"
MODELS = [("MCBig", "MCBig.cfg")]
TRACE = "TraceMetric"
RULE = "a crystal in one description; non-trivial when the lattice is not cubic"
ASSUMPTIONS = [
    "the Bravais lattice type is that of the space group number wulfric reports (its correctness is C04)",
    "metrics are integer Gram matrices, the returned cell is rounded to the 1/24 grid of the crystal",
]


def cases(ctx):
    cs = crys.make_cases(ctx, ctx.pick(1600, 14000), max_atoms=16)
    # lengths of the setting that are nearly equal decide the order of the vectors
    for t in ("mP", "mC", "oP", "oC", "oF", "oI"):
        cs += crys.make_cases(ctx, ctx.pick(150 if t == "mP" else 80, 800), lt=t, max_atoms=8, style="tie")
    return [dict(x=c["x"], d=c["d"][0]) for c in cs]


def execute(case):
    w, A0, cell, atoms = crys.setup(case["x"], case["d"])
    sd = w.get_spglib_data(cell, atoms)
    outs = crys.outputs(w, A0, cell, atoms, kinds=("conv",))
    for o in outs:
        o["cv"] = o["id"].split("-")[0]
    sg = int(sd.space_group_number)
    rots = []
    if sg == case["x"]["sg"]:  # otherwise the crystal has more symmetry than its setting
        rots = sorted({tuple(map(tuple, r.tolist())) for r in xtal.hall_ops(case["x"]["h"])[0]})
    return dict(sg=sg, gram=case["x"]["gram"], outs=outs, rots=rots)


def nontrivial(r):
    return r["sg"] < 195
