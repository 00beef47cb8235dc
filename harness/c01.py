import core
import crys

ID = "C01"
LEVEL = "model_checking"
MODELS = [("MCDescribe", "MCDescribe.cfg")]
MODELS_THOROUGH = [("MCDescribe", "MCDescribe_deep.cfg")]
TRACE = "TraceSame"
RULE = "a crystal in one description; non-trivial when at least 2 atoms and all six standardisations were judged"
ASSUMPTIONS = [
    "crystals live on the 1/24 grid of one of the 530 Hall settings (symmetry operations from spglib's database)",
    "float outputs are rounded to that grid (exact inputs: tolerance 1e-6 of a grid step for cells, 3e-5 for positions; positions given with few digits: 1e-3 and 5e-3)",
    "tolerances of spglib other than the default ones are passed only where spglib finds the same crystal with them",
]


def cases(ctx):
    n = ctx.pick(1000, 9000)
    out = []
    for c in crys.make_cases(ctx, n):
        out.append(dict(x=c["x"], d=c["d"][0]))
    return out


def execute(case):
    w, A0, cell, atoms = crys.setup(case["x"], case["d"])
    return dict(desc=crys.in_desc(case["d"]), outs=crys.outputs(w, A0, cell, atoms, exact=not case["d"].get("noise")))


def nontrivial(r):
    return len(r["desc"]["at"]) > 1 and all(o["exc"] == "" for o in r["outs"])


def stats(cases, recs):
    import collections

    c = collections.Counter()
    for k in cases:
        c[f"sg{k['x']['sg']}"] += 1
    return dict(space_groups_of_settings=len(c), max_atoms=max(len(k["d"]["pts"]) for k in cases))
