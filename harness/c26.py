import numpy as np

import core

ID = "C26"
LEVEL = "model_checking"
MODELS = [("MCTables", "MCTables.cfg")]
TRACE = "TraceTables"
RULE = "an entry of a table of constants (all of them are read)"
ASSUMPTIONS = [
    "the spec's copies of the tables of the International Tables and of the two articles; masses are compared to 0.7 u (1.5 and 5 u for unstable elements)",
]
HP = "cP1 cP2 cF1 cF2 cI1 tP1 tI1 tI2 oP1 oF1 oF2 oF3 oI1 oI2 oI3 oC1 oC2 oA1 oA2 hP1 hP2 hR1 hR2 mP1 mC1 mC2 mC3 aP2 aP3".split()
SC = "CUB FCC BCC TET BCT1 BCT2 ORC ORCF1 ORCF2 ORCF3 ORCI ORCC HEX RHL1 RHL2 MCL MCLC1 MCLC2 MCLC3 MCLC4 MCLC5 TRI1a TRI2a TRI1b TRI2b".split()
LT = "cP cF cI tP tI oP oF oI oA oC hP hR mP mC aP".split()


def cases(ctx):
    c = core.wulfric().constants
    out = [dict(kind="whole")]
    out += [dict(kind="group", n=n) for n in range(1, 231)]
    out += [dict(kind="lattice", lt=x) for x in LT]
    out += [dict(kind="variation", v=x) for x in HP + SC]
    out += [dict(kind="name", name=x) for x in c.HS_PLOT_NAMES]
    out += [dict(kind="species", z=z) for z in range(1, 119)]
    return out


def split(p):
    """a path as a text, or as a list already"""
    if isinstance(p, str):
        return [s.split("-") for s in p.split("|")]
    return [list(s) for s in p]


def execute(case):
    c = core.wulfric().constants
    k = case["kind"]
    r = dict(case)
    if k == "group":
        n = case["n"]
        r["known"] = all(n in t for t in (c.CRYSTAL_FAMILY, c.CENTRING_TYPE, c.INVERSION_SYMMETRY))
        r.update(family=str(c.CRYSTAL_FAMILY.get(n, "")), centring=str(c.CENTRING_TYPE.get(n, "")), inversion=bool(c.INVERSION_SYMMETRY.get(n, False)))
        r["listed"] = r["family"] + r["centring"] in c.BRAVAIS_LATTICES
    elif k == "lattice":
        x = case["lt"]
        r["short"] = str(c.SC_BRAVAIS_LATTICE_SHORT_NAMES.get(x, ""))
        r["words"] = str(c.SC_BRAVAIS_LATTICE_LONG_NAMES.get(x, "")).lower().replace("-", " ").replace("centred", "centered").split()
        for key, t in (("hpkot", c.HPKOT_CONVENTIONAL_TO_PRIMITIVE), ("sc", c.SC_CONVENTIONAL_TO_PRIMITIVE)):
            M, ok = core.qmat(np.array(t.get(x, np.zeros((3, 3)))), 6, 1e-9)
            r[key] = M if ok else []
        r["count"] = list(c.BRAVAIS_LATTICES).count(x)
    elif k == "variation":
        x = case["v"]
        t, names = (c.HPKOT_DEFAULT_K_PATHS, c.HPKOT_EXTENDED_BL_SYMBOLS) if x in HP else (c.SC_DEFAULT_K_PATHS, c.SC_BRAVAIS_LATTICE_VARIATIONS)
        r["path"] = split(t[x]) if x in t else []
        r["count"] = list(names).count(x)
        r["labelled"] = sorted(c.HS_PLOT_NAMES)
    elif k == "name":
        r["label"] = str(c.HS_PLOT_NAMES[case["name"]])
    elif k == "species":
        z = case["z"]
        r["symbol"] = str(c.ATOM_SPECIES[z - 1]) if len(c.ATOM_SPECIES) >= z else ""
        s = r["symbol"]
        r["hasmass"], r["hascolor"] = s in c.ATOMIC_MASS, s in c.ATOM_COLORS
        r["mass"] = core.q(c.ATOMIC_MASS.get(s, 0), 1000, 1)[0]
        r["color"] = str(c.ATOM_COLORS.get(s, ""))
    else:
        r["groups"] = [int(n) for t in (c.CRYSTAL_FAMILY, c.CENTRING_TYPE, c.INVERSION_SYMMETRY) for n in t]
        r["lattices"] = list(c.BRAVAIS_LATTICES)
        r["lkeys"] = [sorted(t) for t in (c.SC_BRAVAIS_LATTICE_SHORT_NAMES, c.SC_BRAVAIS_LATTICE_LONG_NAMES, c.HPKOT_CONVENTIONAL_TO_PRIMITIVE, c.SC_CONVENTIONAL_TO_PRIMITIVE)]
        r["hkeys"], r["skeys"] = sorted(c.HPKOT_DEFAULT_K_PATHS), sorted(c.SC_DEFAULT_K_PATHS)
        r["names"], r["labels"] = list(c.HS_PLOT_NAMES), list(c.HS_PLOT_NAMES.values())
        r["nspecies"] = len(c.ATOM_SPECIES)
        r["xcolor"] = str(c.ATOM_COLORS.get("X", ""))
        r["rad"], r["deg"] = core.q(c.TORADIANS, 10**6, 1)[0], core.q(c.TODEGREES, 10**6, 1)[0]
    return r
