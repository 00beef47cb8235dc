import core
import crys

ID = "C02"
LEVEL = "model_checking"
MODELS = [("MCDescribe", "MCDescribe.cfg")]
MODELS_THOROUGH = [("MCDescribe", "MCDescribe_deep.cfg")]
TRACE = "TracePrim"
RULE = "a crystal in one description; non-trivial when its lattice is centred or its description is a supercell"
ASSUMPTIONS = [
    "the Bravais lattice type is that of the space group number wulfric reports (its correctness is C04)",
    "crystals live on the 1/24 grid of one of the 530 Hall settings",
]


def cases(ctx):
    return [dict(x=c["x"], d=c["d"][0]) for c in crys.make_cases(ctx, ctx.pick(900, 8000))]


def execute(case):
    w, A0, cell, atoms = crys.setup(case["x"], case["d"])
    sd = w.get_spglib_data(cell, atoms)
    return dict(sg=int(sd.space_group_number), outs=crys.outputs(w, A0, cell, atoms, exact=not case["d"].get("noise")))


def nontrivial(r):
    a, b = len(r["outs"][0]["at"]), len(r["outs"][1]["at"])
    return a != b or a > 1
