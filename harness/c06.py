import json

import numpy as np

import core
import crys

ID = "C06"
LEVEL = "model_checking"
MODELS = [("MCDescribe", "MCDescribe.cfg")]
TRACE = "TraceCarry"
RULE = "a crystal in one description with user-defined properties; non-trivial when it has atoms of more than one type"
ASSUMPTIONS = [
    "a value is identified by its JSON text",
    "atoms of one type may have different properties: the last atom of the type is the documented source",
]

SPECIES = [["Fe", "O", "H"], ["Cr", "I", "Br"], ["C", "Co", "Cs"], ["X", "Fe", "N"], ["Si", "S", "Sn"]]
NAMED = [["Fe", "O", "H"], ["Cr", "I", "Br"], ["C", "Co", "Cs"], ["fe", "cu", "AG"]]


def cases(ctx):
    rng = ctx.rng
    out = []
    for c in crys.make_cases(ctx, ctx.pick(1100, 8000), max_atoms=14):
        d = c["d"][0]
        n = len(d["types"])
        src = rng.choice(["types", "types", "types+", "species", "species+", "names", "names-x"])
        a = {}
        t = d["types"]
        if src.startswith("types"):
            lab = rng.choice([[1, 2, 3], [3, 1, 2], [7, 5, 12], [2, 40, 1]])
            a["spglib_types"] = [lab[i - 1] for i in t]
            if src == "types+":  # the other keys do not follow the types
                a["species"] = [rng.choice(["Fe", "O", "X"]) for _ in t]
                a["names"] = [rng.choice(["Fe1", "O", "q"]) for _ in t]
        elif src.startswith("species"):
            s = rng.choice(SPECIES)
            a["species"] = [s[i - 1] for i in t]
            if src == "species+":
                a["names"] = [f"a{j}" for j in range(n)]
        elif src == "names":
            s = rng.choice(NAMED)
            a["names"] = [f"{s[i - 1]}{rng.choice(['', j, '_a', '1'])}" for j, i in enumerate(t)]
        else:
            a["names"] = [f"{'qrj'[i - 1]}" for i in t]
        # user-defined keys; half of the time all atoms of a type share the values
        each = rng.random() < 0.6
        for k in rng.sample(["charges", "moments", "tag", "spins", "flag", "meta", "g_factors"], rng.randint(0, 3)):
            vals = {}

            def val(j, i, k=k):
                x = j if each else i
                return dict(
                    charges=0.5 * x,
                    moments=[0, x, -1],
                    tag=f"t{x}",
                    spins=x,
                    flag=bool(x % 2),
                    meta={"id": x},
                    g_factors=[[x, 0], [0, 1]],
                )[k]

            a[k] = [val(j, i) for j, i in enumerate(t)]
        arr = [k for k in a if k in ("charges", "moments", "spins") and rng.random() < 0.3]
        tup = [k for k in a if k not in arr and rng.random() < 0.15]
        order = list(a) + ["positions"]
        rng.shuffle(order)
        out.append(dict(x=c["x"], d=d, a=a, arr=arr, tup=tup, order=order, src=src))
    return out


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(u) for u in v]
    if isinstance(v, dict):
        return {k: plain(u) for k, u in v.items()}
    return v


def tok(v):
    return json.dumps(plain(v), sort_keys=True)


def build(case):
    w, A0, cell, a0 = crys.setup(case["x"], case["d"])
    atoms = {}
    for k in case["order"]:
        if k == "positions":
            atoms[k] = a0["positions"]
        else:
            v = json.loads(json.dumps(case["a"][k]))
            atoms[k] = np.array(v) if k in case["arr"] else tuple(v) if k in case["tup"] else v
    if isinstance(w, crys.Toleranced):
        w._atoms = atoms
    return w, A0, cell, atoms


def execute(case):
    w, A0, cell, atoms = build(case)
    types, e = core.call(w.get_spglib_types, atoms)
    rec = dict(
        desc=crys.in_desc(case["d"]),
        src=case["src"],
        exc=core.exc_name(e),
        T=[int(t) for t in types] if e is None else [],
        keys=sorted(atoms),
        vals={k: [tok(v) for v in case["a"][k]] for k in case["a"]},
        outs=[],
    )
    for conv in crys.CONVS:
        for kind, f in (("conv", w.crystal.get_conventional), ("prim", w.crystal.get_primitive)):
            r, e = core.call(f, cell, atoms, convention=conv)
            o = crys.out_rec(f"{conv.lower()}-{kind}", A0, r, e)
            o.update(names=[], vals={}, again="", ints=True)
            if e is None:
                c2, a2 = r
                o["names"] = sorted(a2)
                o["vals"] = {k: [tok(v) for v in list(a2[k])] for k in a2 if k != "positions"}
                o["ints"] = all(
                    isinstance(t, (int, np.integer)) for t in a2.get("spglib_types", [])
                )
                _, e2 = core.call(w.crystal.validate_atoms, a2, required_keys=["positions"])
                _, e3 = core.call(f, c2, a2, convention=conv)
                _, e4 = core.call(w.get_spglib_data, c2, a2)
                o["again"] = core.exc_name(e2) or core.exc_name(e3) or core.exc_name(e4)
            rec["outs"].append(o)
    return rec


def nontrivial(r):
    return len(set(r["T"])) > 1 or len(r["keys"]) > 2


def stats(cases, recs):
    import collections

    return dict(sources=collections.Counter(c["src"] for c in cases))
